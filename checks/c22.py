"""C22: characterisation fitters."""
import itertools
import math

import numpy as np
from qiskit import QuantumCircuit
from qiskit.ignis.characterization.coherence import (T1Fitter, T2Fitter, T2StarFitter, t1_circuits,
                                                     t2_circuits, t2star_circuits)
from qiskit.ignis.characterization.hamiltonian import ZZFitter, zz_circuits
from qiskit.ignis.characterization.fitters import BaseFitter
from qiskit.ignis.characterization.gates import (
    AmpCalFitter, AngleCalFitter, AmpCalCXFitter, AngleCalCXFitter, ampcal_1Q_circuits,
    anglecal_1Q_circuits, ampcal_cx_circuits, anglecal_cx_circuits)

from vlib import qsim

ID = 'C22'
BOUNDS = {
    'quick': 'frequencies: 8 fitters x every table over 1 and 2 bits with counts {0,1,3} (3 bits: '
             'one-hot and pairs), qubit lists in and out of order; every distribution of 3 '
             'points x 2 repetitions over <= 3 results, every order of adding them in lists or '
             'one by one, with and without recalculation; fits: grids of 2-3 values per '
             'parameter, 1..3 qubits with different parameters; end to end with injected '
             'ZZ, over-rotation and angle errors; refitting single qubits and series; weighted '
             'least squares, errors, bounds and refitting on 11 patterns of scattered data; 11 qubits '
             'and 12 points; units of time 1e-6..1e5; 1..4 series of any name',
    'thorough': 'finer parameter grids, counts {0,1,2,5}',
}
ASSUMPTIONS = ['initial values and bounds of fits are close to the truth, as the fitters ask for',
               'points with zero spread get the error 1e-4, which keeps the fit defined']
CASE_TIMEOUT = 300

XD = [1.0, 2.0, 4.0]


def maker(kind, xdata, qubits, results=None, p0=None, bounds=None):
    """A fitter of the given kind."""
    if isinstance(bounds, str):
        # no bounds
        if kind in ('t1', 't2', 't2base', 't2star'):
            cls = {'t1': T1Fitter, 't2star': T2StarFitter}.get(kind, T2Fitter)
            kw = dict(circbasename='mybase') if kind == 't2base' else {}
            return cls(results, xdata, qubits, p0, None, **kw)
        if kind == 'zz':
            return ZZFitter(results, xdata, qubits, [9] * len(qubits), p0, None)
        return {'amp': AmpCalFitter, 'ang': AngleCalFitter, 'ampcx': AmpCalCXFitter,
                'angcx': AngleCalCXFitter}[kind](results, xdata, qubits, p0, None)
    if kind == 't1':
        return T1Fitter(results, xdata, qubits, p0 or [1, 5, 0], bounds or ([0, 0, -1], [2, 900, 1]))
    if kind == 't2':
        return T2Fitter(results, xdata, qubits, p0 or [1, 5, 0], bounds or ([0, 0, -1], [2, 900, 1]))
    if kind == 't2base':
        return T2Fitter(results, xdata, qubits, p0 or [1, 5, 0],
                        bounds or ([0, 0, -1], [2, 900, 1]), circbasename='mybase')
    if kind == 't2star':
        return T2StarFitter(results, xdata, qubits, p0 or [0.5, 5, 0.1, 0, 0.5],
                            bounds or ([-1, 0, 0, -4, -1], [1, 900, 5, 4, 1]))
    if kind == 'zz':
        return ZZFitter(results, xdata, qubits, [9] * len(qubits), p0 or [0.5, 0.1, 0, 0.5],
                        bounds or ([-1, 0, -4, -1], [1, 5, 4, 1]))
    cls = {'amp': AmpCalFitter, 'ang': AngleCalFitter, 'ampcx': AmpCalCXFitter,
           'angcx': AngleCalCXFitter}[kind]
    return cls(results, xdata, qubits, p0 or [0.0, 0.5], bounds or ([-1, -1], [1, 1]))


NAMES = {'t1': 't1circuit_%d_', 't2': 't2circuit_%d_', 't2base': 'mybasecircuit_%d_',
         't2star': 't2starcircuit_%d_', 'zz': 'zzcircuit_%d_', 'amp': 'ampcal1Qcircuit_%d_',
         'ang': 'anglecal1Qcircuit_%d_', 'ampcx': 'ampcalcxcircuit_%d_',
         'angcx': 'anglecalcxcircuit_%d_'}
EXPECTED = {'t1': '1', 't2': '0', 't2base': '0', 't2star': '0', 'zz': '0', 'amp': '1', 'ang': '1',
            'ampcx': '1', 'angcx': '1'}


def series_of(kind):
    """Series labels."""
    return ['0', '1'] if kind == 'zz' else ['0']


def frequencies(kind, table, nbits, npoints=len(XD)):
    """{(series, point): counts} -> {series: [per qubit {'mean','std'}]}"""
    out = {}
    for ser in series_of(kind):
        out[ser] = []
        for k in range(nbits):
            means, stds = [], []
            for point in range(npoints):
                counts = table[(ser, point)]
                shots = sum(counts.values())
                good = sum(v for s, v in counts.items() if s[::-1][k] == EXPECTED[kind])
                p = good / shots
                means.append(p)
                std = math.sqrt(p * (1 - p) / shots)
                stds.append(std if std else 1e-4)
            out[ser].append({'mean': means, 'std': stds})
    return out


def compare(ctx, fitter, want, clause):
    """ydata of a fitter."""
    got = fitter.ydata
    ctx.equal(clause + '-series', sorted(got), sorted(want))
    for ser in want:
        ctx.equal(clause + '-qubits', len(got[ser]), len(want[ser]))
        for k, exp in enumerate(want[ser]):
            for key in ('mean', 'std'):
                ctx.close(clause + '-' + key, list(got[ser][k][key]), exp[key], 1e-9,
                          'series %s qubit %d %s' % (ser, k, key))


def experiment(kind, ser, point, counts, nbits):
    """One experiment of a Result."""
    return (NAMES[kind] % point + ser, counts, dict(width=nbits, creg_sizes=[['c', nbits]]))


def run_table(case, ctx):
    """Every table at one point of one qubit list."""
    _, kind, qubits, values = case
    nbits = len(qubits)
    strings = qsim.bitstrings(nbits)
    base = {s: 1 + (7 * i) % 5 for i, s in enumerate(strings)}
    if nbits < 3:
        tables = [dict(zip(strings, v)) for v in itertools.product(values, repeat=len(strings))]
    else:
        tables = [{s: 4, t: 3} for s in strings for t in strings]
    for tab in tables:
        tab = {s: v for s, v in tab.items() if v}
        if not tab:
            continue
        for where in range(len(XD)):
            table = {}
            for ser in series_of(kind):
                for point in range(len(XD)):
                    table[(ser, point)] = tab if point == where and ser == series_of(kind)[-1] \
                        else base
            res = qsim.make_result([experiment(kind, ser, point, counts, nbits)
                                    for (ser, point), counts in table.items()])
            fitter = maker(kind, XD, qubits)
            fitter.add_data(res, refit=False)
            ctx.step()
            compare(ctx, fitter, frequencies(kind, table, nbits), 'frequency')
            ctx.state(kind, qubits, tab, where)
    ctx.equal('qubits', list(fitter.measured_qubits), list(qubits))


def run_wide(case, ctx):
    """Eleven qubits and twelve points."""
    _, kind, qubits, npoints, shuffle = case
    nbits = len(qubits)
    xdata = [1.0 + 0.5 * p for p in range(npoints)]
    table = {}
    for s, ser in enumerate(series_of(kind)):
        for p in range(npoints):
            counts = {}
            for i in range(40):
                key = ''.join('01'[(i * (k + 3) + p * 7 + s * 5 + k * k) % 11 < 5]
                              for k in range(nbits))
                counts[key] = counts.get(key, 0) + 1 + (i + p) % 3
            table[(ser, p)] = counts
    exps = [experiment(kind, ser, p, c, nbits) for (ser, p), c in table.items()]
    exps = exps[::-1] if shuffle else exps
    fitter = maker(kind, xdata, qubits)
    half = len(exps) // 2
    fitter.add_data([qsim.make_result(exps[:half]), qsim.make_result(exps[half:])], refit=False)
    ctx.step()
    compare(ctx, fitter, frequencies(kind, table, nbits, npoints), 'wide')


def run_split(case, ctx):
    """Distributions of repeated points over results, in every order."""
    _, kind, layout, mode = case
    nbits, qubits = 2, [3, 1]
    pieces = []
    table = {}
    num = 0
    for rep in range(2):
        for point in range(len(XD)):
            for ser in series_of(kind):
                counts = {'00': 2 + num, '01': 3 * rep + point, '10': (num * 3) % 4, '11': 1 + rep}
                counts = {s: v for s, v in counts.items() if v}
                num += 1
                tot = table.setdefault((ser, point), {})
                for s, v in counts.items():
                    tot[s] = tot.get(s, 0) + v
                pieces.append((rep * len(XD) + point, experiment(kind, ser, point, counts, nbits)))
    groups = [[exp for key, exp in pieces if layout[key] == g] for g in sorted(set(layout))]
    # one Result holds each circuit once
    if any(len({e[0] for e in grp}) != len(grp) for grp in groups):
        return
    results = [qsim.make_result(grp) for grp in groups]
    want = frequencies(kind, table, nbits)
    for order in itertools.permutations(results):
        order = list(order)
        if mode == 'list':
            fitter = maker(kind, XD, qubits)
            fitter.add_data(order, refit=False)
        elif mode == 'late':
            fitter = maker(kind, XD, qubits)
            for res in order[:-1]:
                fitter.add_data(res, recalc=False, refit=False)
            fitter.add_data([order[-1]], recalc=True, refit=False)
        else:
            fitter = maker(kind, XD, qubits)
            for i in range(len(order)):
                fitter.add_data(order[i], recalc=i == len(order) - 1, refit=False)
        ctx.step(len(order))
        compare(ctx, fitter, want, 'split')
        ctx.equal('kept', len(fitter.backend_result), len(order))
        other = maker(kind, XD, qubits)
        ctx.equal('independent', list(other.backend_result), [])
    ctx.state(kind, layout, mode)


SHOTS = 10 ** 9


def product_counts(probs_of_one):
    """Counts of independent qubits; probs_of_one[k] = P(bit k is 1)."""
    n = len(probs_of_one)
    out = {}
    for s in qsim.bitstrings(n):
        p = 1.0
        for k in range(n):
            p *= probs_of_one[k] if s[::-1][k] == '1' else 1 - probs_of_one[k]
        num = int(round(p * SHOTS))
        if num:
            out[s] = num
    return out


def fitted(kind, xdata, qubits, curves, p0, bounds=None):
    """Fitter on exact data; curves[series][k](x) = probability of the expected state."""
    exps = []
    for ser in series_of(kind):
        for point, x in enumerate(xdata):
            probs = [c(x) for c in curves[ser]]
            if EXPECTED[kind] == '0':
                probs = [1 - p for p in probs]
            exps.append(experiment(kind, ser, point, product_counts(probs), len(qubits)))
    return maker(kind, xdata, qubits, qsim.make_result(exps), p0, bounds), exps


def run_decay(case, ctx):
    """T1 and T2 of exact exponential data."""
    _, kind, qubits, params = case[:4]
    unit = case[4] if len(case) > 4 else 1.
    if unit != 1:
        # the same decay with time in another unit
        xdata = np.linspace(0, 60, 21) * unit
        curves = {'0': [lambda x, p=p: p[0] * math.exp(-x / unit / p[1]) + p[2] for p in params]}
        fit, _ = fitted(kind, xdata, qubits, curves, [0.8, 20 * unit, 0.1],
                        ([0, 0, -1], [2, 900 * unit, 1]))
        ctx.step()
        ctx.close('unit', np.array(fit.time()) / unit, [p[1] for p in params], 0.06, 'times')
        for k, par in enumerate(params):
            ctx.close('unit', fit.time(k) / unit, par[1], 1e-3 * par[1], 'time of qubit %d' % k)
            ctx.close('unit', fit.params['0'][k][::2], par[::2], 1e-3, 'amplitude and offset')
        return
    xdata = np.linspace(0, 60, 21)
    curves = {'0': [lambda x, p=p: p[0] * math.exp(-x / p[1]) + p[2] for p in params]}
    fit, exps = fitted(kind, xdata, qubits, curves, [0.8, 20, 0.1])
    ctx.step()
    for k, par in enumerate(params):
        ctx.close('time', fit.time(k), par[1], 1e-3 * par[1], 'time of qubit %d' % k)
        ctx.close('params', list(fit.params['0'][k]), par, 1e-3 * par[1], 'parameters')
        ctx.check('error', fit.time_err(k) >= 0, fit.time_err(k))
    ctx.close('times', list(fit.time()), [p[1] for p in params], 1e-3 * 60, 'all times')
    ctx.equal('errors', len(fit.time_err()), len(params))
    # refitting one qubit leaves the others alone
    before = [list(p) for p in fit.params['0']]
    for k in range(len(params)):
        fit.fit_data(qid=k, p0=[0.7, 15, 0.2])
        ctx.close('refit', fit.time(k), params[k][1], 1e-3 * params[k][1], 'refitted time')
        for j, vals in enumerate(before):
            if j > k:
                ctx.close('others', list(fit.params['0'][j]), vals, 0, 'other qubits')
    # more data of the same curve gives the same fit, other data changes it
    fit.add_data(qsim.make_result(exps))
    ctx.close('more', list(fit.time()), [p[1] for p in params], 1e-3 * 60, 'all times')
    ctx.outcome(kind, len(params))


def run_series(case, ctx):
    """Several series of any name, through the base class."""
    _, series, qubits, state = case
    xdata = [0., 1., 2., 4.]
    names = ['base%dx' % i for i in range(len(xdata))]
    slope = {(ser, k): 0.02 * (s + 1) - 0.05 * k for s, ser in enumerate(series)
             for k in range(len(qubits))}
    exps = []
    for ser in series:
        for i, x in enumerate(xdata):
            probs = [0.5 + slope[ser, k] * x for k in range(len(qubits))]
            exps.append((names[i] + ser, product_counts(
                [p if state == '1' else 1 - p for p in probs]), dict(width=len(qubits))))

    def line(x, a, b):
        return a * x + b
    for rotate in range(3):
        fit = BaseFitter('line', qsim.make_result(exps[rotate:] + exps[:rotate]), xdata, qubits,
                         line, [0.1, 0.4], None, names, list(series), state)
        ctx.step()
        for ser in series:
            for k in range(len(qubits)):
                ctx.close('series', fit.params[ser][k], [slope[ser, k], 0.5], 1e-5, (ser, k))
                ctx.close('series-mean', fit.ydata[ser][k]['mean'],
                          [0.5 + slope[ser, k] * x for x in xdata], 1e-6, (ser, k))
    ctx.outcome(series, len(qubits))


def run_osc(case, ctx):
    """T2* of exact decaying oscillations."""
    _, qubits, params = case
    xdata = np.linspace(0, 40, 61)
    curves = {'0': [lambda x, p=p: p[0] * math.exp(-x / p[1]) * math.cos(
        2 * math.pi * p[2] * x + p[3]) + p[4] for p in params]}
    p0 = [0.45, 25, params[0][2] * 1.02, 0.05, 0.5]
    fit, _ = fitted('t2star', xdata, qubits, curves, p0)
    ctx.step()
    for k, par in enumerate(params):
        got = fit.params['0'][k]
        ctx.close('time', fit.time(k), par[1], 2e-3 * par[1], 'time of qubit %d' % k)
        ctx.close('oscillation', list(got), par, 2e-3 * par[1], 'parameters')
        ctx.close('freq', got[2], par[2], 1e-4, 'frequency')
        guess = fit.guess_params(k)
        ctx.close('guess', abs(guess[2]), par[2], 1 / 40., 'guessed frequency')


def run_zz(case, ctx):
    """ZZ rates of exact oscillations."""
    _, qubits, params = case
    xdata = np.linspace(0, 40, 61)
    curves = {ser: [lambda x, p=p, s=s: p[0] * math.cos(2 * math.pi * p[1 + s] * x + p[3]) + p[4]
                    for p in params] for s, ser in enumerate('01')}
    p0 = [0.45, (params[0][1] + params[0][2]) / 2, 0.05, 0.5]
    fit, _ = fitted('zz', xdata, qubits, curves, p0)
    ctx.step()
    rates = fit.ZZ_rate()
    ctx.equal('number', len(rates), len(params))
    for k, par in enumerate(params):
        ctx.close('rate', float(rates[k]), par[2] - par[1], 1e-4, 'ZZ rate')
        ctx.close('rate-one', float(fit.ZZ_rate(k)), par[2] - par[1], 1e-4, 'ZZ rate')
        for s, ser in enumerate('01'):
            ctx.close('freq', fit.params[ser][k][1], par[1 + s], 1e-4, 'frequency')
    before = list(fit.params['1'][0])
    fit.fit_data(series='0', p0=[0.4, params[0][1], 0, 0.5])
    ctx.close('series', list(fit.params['1'][0]), before, 0, 'other series')
    ctx.close('rate', float(fit.ZZ_rate(0)), params[0][2] - params[0][1], 1e-4, 'ZZ rate')


CURVES = {  # documented curves of the excited population
    'amp': lambda x, e: 0.5 - 0.5 * math.cos((x + 1) * 2 * (math.pi / 4 + e)),
    'ang': lambda x, e: 0.5 - 0.5 * math.sin(math.pi / 2 * x + 2 * e * (x + 1) + math.pi),
    'ampcx': lambda x, e: 0.5 - 0.5 * math.cos((math.pi + 2 * e) * x + math.pi / 2),
    'angcx': lambda x, e: 0.5 - 0.5 * math.cos((math.pi + 2 * e) * x + math.pi / 2)}


def run_angle(case, ctx):
    """Angle errors of exact curves."""
    _, kind, qubits, errs, reps = case
    xdata = np.arange(reps) * (2 if kind in ('amp', 'ang') else 1)
    curves = {'0': [lambda x, e=e: CURVES[kind](x, e) for e in errs]}
    fit, _ = fitted(kind, xdata, qubits, curves, [2 * errs[0] * 0.9, 0.5])
    ctx.step()
    ctx.close('angles', [float(v) for v in fit.angle_err()], errs, 1e-4, 'angle errors')
    for k, e in enumerate(errs):
        ctx.close('angle', float(fit.angle_err(k)), e, 1e-4, 'angle error')


def model(kind):
    """Documented curve of a fitter as a function of its parameters."""
    if kind in ('t1', 't2', 't2base'):
        return lambda x, p: p[0] * np.exp(-x / p[1]) + p[2]
    if kind == 't2star':
        return lambda x, p: p[0] * np.exp(-x / p[1]) * np.cos(2 * np.pi * p[2] * x + p[3]) + p[4]
    if kind == 'zz':
        return lambda x, p: p[0] * np.cos(2 * np.pi * p[1] * x + p[2]) + p[3]
    return lambda x, p: np.array([CURVES[kind](v, p[0] / 2) for v in x]) - 0.5 + p[1]


def gauss_newton(func, xdata, dat, start):
    """Weighted least squares from a start next to the optimum: parameters and their errors."""
    par = np.array(start, dtype=float)
    y, w = np.array(dat['mean']), 1 / np.array(dat['std'])
    for _ in range(25):
        cols = []
        for i in range(len(par)):
            h = np.zeros(len(par))
            h[i] = 1e-5 * max(1, abs(par[i]))
            cols.append((func(xdata, par + h) - func(xdata, par - h)) / (2 * h[i]) * w)
        jac = np.array(cols).T
        res = (y - func(xdata, par)) * w
        par = par + np.linalg.lstsq(jac, res, rcond=None)[0]
    res = (y - func(xdata, par)) * w
    cov = np.linalg.inv(jac.T @ jac) * (res @ res) / (len(y) - len(par))
    return par, np.sqrt(np.diag(cov))


TRUE = {'t1': [[.8, 20., .1], [.6, 12., .2]], 't2': [[-.4, 20., .5], [.45, 30., .5]],
        't2star': [[.4, 30., .11, .1, .5], [.35, 20., .115, .0, .45]],
        'zz': [[.45, .11, .1, .5], [.4, .112, .0, .48]],
        'amp': [[.1, .5], [.05, .48]], 'ang': [[.1, .5], [-.06, .52]],
        'ampcx': [[.1, .5], [.05, .48]], 'angcx': [[.1, .5], [-.06, .52]]}
TRUE['t2base'] = TRUE['t2']


def noisy_data(kind, xdata, pattern, base, which):
    """Experiments whose frequencies scatter around a curve, with differing numbers of shots."""
    exps = []
    func = model(kind)
    for ser in series_of(kind):
        par = [np.array(p) for p in TRUE[kind]]
        if ser == '1':
            par = [p + np.array([0, .004, 0, 0]) for p in par]
        for point, x in enumerate(xdata):
            shots = base * (1 + (point * 3 + which) % 4)
            probs = []
            for k, p in enumerate(par):
                val = float(func(np.array([x]), p)[0])
                val += (.02 if (pattern >> ((point + 3 * k) % 5)) & 1 else -.02)
                val = min(.97, max(.03, val))
                probs.append(val if EXPECTED[kind] == '1' else 1 - val)
            one = [int(round(p * shots)) for p in probs]
            # bits of shot i: ones are spread so that no two qubits agree
            counts = {}
            for i in range(shots):
                key = ''.join('1' if ((i * (2 * k + 1) + k) % shots if shots % (2 * k + 1) else
                                      (i + shots // 2) % shots) < one[k] else '0'
                              for k in reversed(range(2)))
                counts[key] = counts.get(key, 0) + 1
            exps.append(experiment(kind, ser, point, counts, 2))
    return exps


def run_noisy(case, ctx):
    """Fits of scattered data are weighted least squares with the errors that go with it."""
    kind, pattern = case[1:3]
    xdata = np.arange(0, 8) * (2. if kind in ('amp', 'ang') else 1.)
    if kind in ('t1', 't2', 't2base', 't2star', 'zz'):
        xdata = np.linspace(1, 41, 21)
    if len(case) > 3:
        xdata = np.linspace(xdata[0], xdata[-1], case[3]) if kind in (
            't1', 't2', 't2base', 't2star', 'zz') else np.arange(0, case[3]) * 2.
    first = qsim.make_result(noisy_data(kind, xdata, pattern, 100, 0))
    second = qsim.make_result(noisy_data(kind, xdata, pattern ^ 21, 40, 1))
    p0 = list(TRUE[kind][0])
    size = len(p0)
    wide = ([-1000.] * size, [1000.] * size)
    if kind in ('t1', 't2', 't2base', 't2star'):
        wide[0][1] = .1

    def check(fit, what):
        for ser in series_of(kind):
            for k in range(2):
                want, err = gauss_newton(model(kind), xdata, fit.ydata[ser][k],
                                         fit.params[ser][k])
                scale = 1e-2 * err
                ctx.check('optimum', np.all(np.abs(fit.params[ser][k] - want) <= scale + 1e-7),
                          (what, kind, ser, k, list(fit.params[ser][k]), list(want), list(err)))
                ctx.check('errors', np.all(np.abs(fit.params_err[ser][k] / err - 1) < .03),
                          (what, kind, ser, k, list(fit.params_err[ser][k]), list(err)))
        if hasattr(fit, 'time'):
            ctx.close('time', list(fit.time()), [p[1] for p in fit.params['0']], 1e-12, what)
            ctx.close('time_err', list(fit.time_err()), [p[1] for p in fit.params_err['0']],
                      1e-12, what)
            for k in range(2):
                ctx.close('time_err', fit.time_err(k), fit.params_err['0'][k][1], 1e-12, what)
        if kind == 'zz':
            ctx.close('zz', [float(v) for v in fit.ZZ_rate()],
                      [abs(b[1]) - abs(a[1]) for a, b in zip(fit.params['0'], fit.params['1'])],
                      1e-12, what)

    one = maker(kind, xdata, [3, 1], first, p0, wide)
    check(one, 'one result')
    before = {s: [list(p) for p in v] for s, v in one.params.items()}
    both = maker(kind, xdata, [3, 1], [first, second], p0, wide)
    check(both, 'two results')
    one.add_data(second)
    ctx.step(3)
    for ser in series_of(kind):
        for k in range(2):
            ctx.close('refitted', list(one.params[ser][k]), list(both.params[ser][k]), 1e-5,
                      'after adding data')
    late = maker(kind, xdata, [3, 1], first, p0, wide)
    late.add_data(second, refit=False)
    for ser in series_of(kind):
        for k in range(2):
            ctx.close('not-refitted', list(late.params[ser][k]), before[ser][k], 0, 'refit=False')
    late.fit_data()
    ctx.step(2)
    for ser in series_of(kind):
        for k in range(2):
            ctx.close('refitted', list(late.params[ser][k]), list(both.params[ser][k]), 1e-5,
                      'after fitting again')
    # no bounds at all, and bounds which exclude the optimum in the last parameter
    free = maker(kind, xdata, [3, 1], first, p0, 'none')
    check(free, 'no bounds')
    val = before['0'][0][-1]
    low = [list(wide[0]), list(wide[1])]
    low[1][-1] = val - .05
    start = p0[:-1] + [val - .06]
    fit = maker(kind, xdata, [3, 1], first, start, tuple(low))
    ctx.check('bounds', fit.params['0'][0][-1] <= val - .05 + 1e-9, (val, fit.params))
    late = maker(kind, xdata, [3, 1], first, p0, wide)
    late.fit_data(p0=start, bounds=tuple(low))
    ctx.check('bounds', late.params['0'][0][-1] <= val - .05 + 1e-9, (val, late.params))
    ctx.step(3)
    ctx.outcome(kind, [round(float(v), 5) for v in before['0'][0]])


def replaced(circ, func):
    """Replace instructions of a circuit: func(inst, qubit indices, circuit) -> handled."""
    out = QuantumCircuit(*circ.qregs, *circ.cregs, name=circ.name)
    idx = {q: i for i, q in enumerate(circ.qubits)}
    for inst, qargs, cargs in circ.data:
        if not func(inst, [idx[q] for q in qargs], out):
            out.append(inst, qargs, cargs)
    return out


def result_of(circs, nbits):
    """Exact counts of circuits."""
    exps = []
    for circ in circs:
        dist = qsim.dist(circ)
        counts = {s: int(round(p * SHOTS)) for s, p in dist.items() if p * SHOTS > 0.5}
        exps.append((circ.name, counts, dict(width=nbits, creg_sizes=[['c', nbits]])))
    return qsim.make_result(exps)


def run_end(case, ctx):
    """Circuits with a known fault, simulated and fitted."""
    _, which, qubits, others, size = case
    ctx.step()
    n = len(qubits)
    if which == 'ang':
        circs, xdata = anglecal_1Q_circuits(6, qubits, angleerr=size)
        fit = AngleCalFitter(result_of(circs, n), xdata, qubits, [0.01, 0.5], ([-1, -1], [1, 1]))
        ctx.close('angle', [float(v) for v in fit.angle_err()], [size] * n, 1e-4, 'angle')
    elif which == 'angcx':
        circs, xdata = anglecal_cx_circuits(8, qubits, others, angleerr=size)
        fit = AngleCalCXFitter(result_of(circs, n), xdata, qubits, [0.01, 0.5], ([-1, -1], [1, 1]))
        ctx.close('angle', [float(v) for v in fit.angle_err()], [size] * n, 1e-4, 'angle')
    elif which == 'amp':
        circs, xdata = ampcal_1Q_circuits(6, qubits)

        def over(inst, qs, out):
            if inst.name in ('u2', 'ry'):
                out.ry(math.pi / 2 + 2 * size * (1 + qubits.index(qs[0])), qs[0])
                return True
            return False
        fit = AmpCalFitter(result_of([replaced(c, over) for c in circs], n), xdata, qubits,
                           [0.01, 0.5], ([-1, -1], [1, 1]))
        ctx.close('angle', [float(v) for v in fit.angle_err()],
                  [size * (1 + k) for k in range(n)], 1e-4, 'angle')
    elif which == 'ampcx':
        circs, xdata = ampcal_cx_circuits(8, qubits, others)

        def over(inst, qs, out):
            if inst.name == 'cx':
                # a controlled rotation about x by pi + 2 size, up to a phase of the control
                ang = (math.pi + 2 * size * (1 + qubits.index(qs[1]))) / 2
                out.h(qs[1])
                out.rz(ang, qs[1])
                out.cx(qs[0], qs[1])
                out.rz(-ang, qs[1])
                out.cx(qs[0], qs[1])
                out.h(qs[1])
                return True
            return False
        fit = AmpCalCXFitter(result_of([replaced(c, over) for c in circs], n), xdata, qubits,
                             [0.01, 0.5], ([-1, -1], [1, 1]))
        ctx.close('angle', [float(v) for v in fit.angle_err()],
                  [size * (1 + k) for k in range(n)], 1e-4, 'angle')
    elif which == 'zz':
        nums = list(range(0, 30))
        circs, xdata, freq = zz_circuits(nums, 0.5, qubits, others, nosc=4)

        def inter(inst, qs, out):
            if inst.name in ('id', 'iden'):
                k = qubits.index(qs[0])
                out.cu1(2 * math.pi * 0.5 * size * (1 + k), others[k], qs[0])
                return True
            return False
        fit = ZZFitter(result_of([replaced(c, inter) for c in circs], n), xdata, qubits, others,
                       [0.5, freq, 0, 0.5], ([-1, 0, -4, -1], [1, 5, 4, 1]))
        ctx.close('zz', [float(v) for v in fit.ZZ_rate()], [size * (1 + k) for k in range(n)],
                  1e-4, 'ZZ rate')
        for k in range(n):
            ctx.close('induced', fit.params['0'][k][1], freq, 1e-4, 'induced frequency')
    elif which == 't2star':
        nums = list(range(0, 40))
        circs, xdata, freq = t2star_circuits(nums, 0.5, qubits, nosc=5)

        def detune(inst, qs, out):
            if inst.name in ('id', 'iden'):
                out.u1(2 * math.pi * 0.5 * size * (1 + qubits.index(qs[0])), qs[0])
                return True
            return False
        fit = T2StarFitter(result_of([replaced(c, detune) for c in circs], n), xdata, qubits,
                           [0.5, 300, freq, 0, 0.5], ([-1, 0, 0, -4, -1], [1, 1e9, 5, 4, 1]))
        for k in range(n):
            ctx.close('detuning', fit.params['0'][k][2], freq + size * (1 + k), 1e-4, 'frequency')
    else:
        nums = list(range(0, 40, 3))
        if which == 't1':
            circs, xdata = t1_circuits(nums, 0.5, qubits)
        else:
            circs, xdata = t2_circuits(nums, 0.5, qubits, n_echos=size, phase_alt_echo=size > 2)
        exps = []
        for circ in circs:
            clean = {s: p for s, p in qsim.dist(circ).items() if p > 1e-6}
            ids = {}
            for inst, qargs, _ in circ.data:
                if inst.name in ('id', 'iden'):
                    q = circ.qubits.index(qargs[0])
                    ids[q] = ids.get(q, 0) + 1
            surv = [math.exp(-0.5 * ids.get(q, 0) / (20. * (1 + k))) for k, q in enumerate(qubits)]
            ctx.check('clean', len(clean) == 1 and set(next(iter(clean))) < {'0', '1'}, clean)
            sign = 1 if '1' in next(iter(clean)) else -1
            ctx.check('clean-t1', sign == 1 or which == 't2', clean)
            probs = surv if which == 't1' else [0.5 + sign * 0.5 * s for s in surv]
            exps.append((circ.name, product_counts(probs),
                         dict(width=n, creg_sizes=[['c', n]])))
        cls = T1Fitter if which == 't1' else T2Fitter
        fit = cls(qsim.make_result(exps), xdata, qubits,
                  [0.5 if which == 't1' else -sign * 0.5, 25, 0.1], ([-2, 0, -1], [2, 900, 1]))
        for k in range(n):
            ctx.close('decay', fit.time(k), 20. * (1 + k), 0.05, 'time')
    ctx.outcome(which, n)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    kinds = list(NAMES)
    for kind in kinds:
        for qubits in ([0], [2]):
            yield ['table', kind, qubits, (0, 1, 3)]
        for qubits in ([0, 1], [3, 1]):
            yield ['table', kind, qubits, (0, 1, 2, 5) if full else (0, 1, 3)]
        yield ['table', kind, [2, 0, 1], None]
        for qubits in ([10, 2], [5, 3, 11, 0, 1, 2, 10, 4, 6, 9, 7]):
            for npoints in (3, 12):
                for shuffle in (0, 1):
                    yield ['wide', kind, qubits, npoints, shuffle]
        for layout in itertools.product(range(3), repeat=6):
            # results numbered in order of first use
            seen = []
            for g in layout:
                if g not in seen:
                    seen.append(g)
            if seen != sorted(seen):
                continue
            if kind not in ('t1', 'zz') and not full and layout[0] == layout[1]:
                continue
            for mode in ('list', 'late', 'single'):
                yield ['split', kind, list(layout), mode]
    for kind in ('t1', 't2'):
        for a in (0.5, 0.85):
            for tau in (8.0, 20.0, 45.0):
                for c in (0.02, 0.12):
                    yield ['decay', kind, [1], [[a, tau, c]]]
        for taus in itertools.product((10.0, 30.0), repeat=2):
            yield ['decay', kind, [2, 0], [[0.8, taus[0], 0.1], [0.6, taus[1], 0.2]]]
        for unit in (1e-6, 1e-3, 1e3, 1e5):
            yield ['decay', kind, [2, 0], [[0.8, 25.0, 0.1], [0.6, 15.0, 0.2]], unit]
        yield ['decay', kind, [2, 0, 1], [[0.8, 10.0, 0.1], [0.6, 40.0, 0.2], [0.7, 20.0, 0.0]]]
    for series in (['0'], ['a', 'b'], ['1', '0', '2'], ['x', 'y', 'z', 'w']):
        for qubits in ([0], [3, 1], [2, 0, 1]):
            for state in '01':
                yield ['series', series, qubits, state]
    for tau in (15.0, 40.0):
        for f in (0.1, 0.24):
            for phi in (0.0, 0.3):
                yield ['osc', [0], [[0.4, tau, f, phi, 0.5]]]
        yield ['osc', [3, 1], [[0.4, tau, 0.2, 0.1, 0.5], [0.3, 25.0, 0.205, 0.0, 0.45]]]
    for f0 in (0.1, 0.22):
        for df in (0.004, -0.006, 0.0):
            yield ['zz', [1], [[0.4, f0, f0 + df, 0.1, 0.5]]]
            yield ['zz', [2, 0], [[0.4, f0, f0 + df, 0.0, 0.5], [0.45, f0 + 0.003, f0, 0.1, 0.48]]]
    for kind in ('amp', 'ang', 'ampcx', 'angcx'):
        for e in (-0.1, -0.03, 0.0, 0.05, 0.12):
            for reps in (6, 10):
                yield ['angle', kind, [1], [e], reps]
            yield ['angle', kind, [3, 0, 2], [e, e + 0.02, e - 0.01], 8]
    for kind in kinds:
        for pattern in range(0, 32, 1 if full else 3):
            yield ['noisy', kind, pattern]
        yield ['noisy', kind, 11, 48 if kind in ('t1', 't2', 't2base', 't2star', 'zz') else 13]
    sizes = (-0.08, 0.0, 0.03, 0.1) if full else (-0.08, 0.05)
    for size in sizes:
        for qubits, others in (([0], [1]), ([1], [0]), ([2, 0], [1, 3]), ([0, 2], [1, 1])):
            yield ['end', 'ang', qubits, others, size]
            yield ['end', 'amp', qubits, others, size / 2]
            if others != [1, 1]:
                yield ['end', 'ampcx', qubits, others, size / 2]
                yield ['end', 'angcx', qubits, others, size]
            yield ['end', 'zz', qubits, others, size / 20]
            yield ['end', 't2star', qubits, others, size / 20]
    for qubits in ([0], [2], [1, 0], [2, 0]):
        yield ['end', 't1', qubits, [], 0]
        for echoes in (1, 2, 3, 4):
            yield ['end', 't2', qubits, [], echoes]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
