"""C23: Rabi and DRAG calibration."""
import itertools
import math

import numpy as np
from qiskit import QiskitError
import qiskit.pulse as pulse
import qiskit.pulse.library as pulse_lib
from qiskit.test.mock import FakeOpenPulse2Q, FakeOpenPulse3Q
from qiskit.ignis.characterization.calibrations import (rabi_schedules, drag_schedules, RabiFitter,
                                                        DragFitter)

from vlib import qsim

ID = 'C23'
BOUNDS = {
    'quick': 'Rabi and DRAG fitters, 1..2 qubits (lists in and out of order); averaged and '
             'single-shot data; every distribution of 4 schedules (two of them repeated) over <= 3 '
             'results with different shot numbers, every order, added at once or one by one; 16 '
             'directions of the signal in the IQ plane; every table of 4 IQ points of a 4-letter alphabet with exact zeros; '
             'rejected data at every place of a history; fits on grids of amplitudes and DRAG '
             'coefficients, data of size 1e-5..1e5; schedules for every ordered list of qubits of 2- and 3-qubit devices, '
             '4 or 13 values; 11 qubits and 13 schedules',
    'thorough': '64 directions, finer grids',
}
ASSUMPTIONS = ['the k-th listed qubit is in memory slot k (which the schedules arrange)',
               'the sign of the projected signal is free']

XD = [-0.5, 0.1, 0.4, 0.9]
NAMES = {'rabi': 'rabisched_%d_0', 'drag': 'dragsched_%d_0'}


def maker(kind, xdata, qubits, results=None, p0=None):
    """A fitter."""
    if kind == 'rabi':
        return RabiFitter(results, xdata, qubits, p0 or [1, 1, 0, 0])
    return DragFitter(results, xdata, qubits, p0 or [1, 0, 0])


def projected(points):
    """Centred points on the direction of largest spread."""
    pts = np.array(points) - np.mean(points)
    mat = np.stack([pts.real, pts.imag], axis=1)
    _, _, vecs = np.linalg.svd(mat, full_matrices=False)
    return mat @ vecs[0]


def compare(ctx, fitter, means, clause, shots=None):
    """ydata of each qubit, up to sign; means[k] = IQ points of slot k."""
    for k, points in enumerate(means):
        got = np.array(fitter.ydata['0'][k]['mean'], dtype=complex)
        ctx.check(clause + '-real', np.allclose(got.imag, 0, atol=1e-9), 'complex signal')
        want = projected(points)
        got = got.real
        sign = 1 if abs(np.sum(got * want)) < 1e-15 else np.sign(np.sum(got * want))
        ctx.close(clause, list(sign * got), list(want), 1e-7 * (1 + np.max(np.abs(points))),
                  'signal of qubit %d' % k)
        std = np.abs(fitter.ydata['0'][k]['std'])
        ctx.check(clause + '-std', len(std) == len(points) and bool(np.all(std > 0)), std)
        if shots is not None:
            want = [np.sqrt(np.mean(np.abs(np.array(s) - np.mean(s)) ** 2)) for s in shots[k]]
            ctx.close(clause + '-spread', list(std), want, 1e-7, 'spread of the shots')
    ctx.equal(clause + '-qubits', len(fitter.ydata['0']), len(means))


def base_points(nq, angle, seed):
    """IQ points [slot][schedule], spread mostly along a direction per slot."""
    out = []
    for k in range(nq):
        ang = angle + k * 1.1
        along = [(-1) ** (j + seed) * (0.6 + ((3 * j + k + seed) % 5) * 0.5) for j in range(len(XD))]
        across = [0.05 * ((2 * j + k) % 3 - 1) for j in range(len(XD))]
        out.append([(3 - 2j) + (a + 1j * b) * complex(math.cos(ang), math.sin(ang))
                    for a, b in zip(along, across)])
    return out


def run_direction(case, ctx):
    """One Result, every direction, averaged or single-shot."""
    _, kind, qubits, num, dirs, mode = case
    nq = len(qubits)
    pts = base_points(nq, 2 * math.pi * num / dirs, num % 3)
    exps = []
    for j in range(len(XD)):
        mean = np.array([pts[k][j] for k in range(nq)])
        if mode == 'avg':
            mem, shots = mean, 10
        else:
            shots = 4
            wob = np.array([0.3, -0.3, 0.2j, -0.2j])
            mem = mean[None, :] + np.outer(wob, np.arange(1, nq + 1))
        exps.append((NAMES[kind] % j, mem, shots))
    fitter = maker(kind, XD, qubits)
    fitter.add_data(qsim.make_iq_result(exps), refit=False)
    ctx.step()
    compare(ctx, fitter, pts, 'projected', None if mode == 'avg' else
            [[mem[:, k] for _, mem, _ in exps] for k in range(nq)])
    ctx.outcome(kind, mode)


def run_split(case, ctx):
    """Repeated schedules with different shot numbers over several results."""
    _, kind, layout, mode, how = case
    qubits = [2, 0]
    nq = 2
    jobs = [0, 1, 2, 3, 0, 2]   # schedules; two are repeated
    parts = []
    tot = {}
    base = base_points(nq, 0.7, 1)
    for i, j in enumerate(jobs):
        shots = 2 + 3 * i
        if mode == 'avg':
            mem = np.array([base[k][j] + 0.1 * (i + k) - 0.07j * i for k in range(nq)])
            mean = mem
        else:
            mem = np.array([[base[k][j] + 0.1 * i * ((s * (k + 1)) % 3) + 0.2j * (s % 2)
                             for k in range(nq)] for s in range(shots)])
            mean = mem.mean(axis=0)
        parts.append((NAMES[kind] % j, mem, shots))
        old = tot.get(j, (0, np.zeros(nq, dtype=complex)))
        tot[j] = (old[0] + shots, old[1] + shots * mean)
    groups = [[p for p, g in zip(parts, layout) if g == grp] for grp in sorted(set(layout))]
    if any(len({p[0] for p in grp}) != len(grp) for grp in groups):
        return
    results = [qsim.make_iq_result(grp) for grp in groups]
    means = [[tot[j][1][k] / tot[j][0] for j in range(len(XD))] for k in range(nq)]
    for order in itertools.permutations(results):
        fitter = maker(kind, XD, qubits)
        if how == 'list':
            fitter.add_data(list(order), refit=False)
        else:
            for i, res in enumerate(order):
                fitter.add_data(res, recalc=i == len(order) - 1, refit=False)
        ctx.step()
        compare(ctx, fitter, means, 'weighted', None if mode == 'avg' else
                [[np.concatenate([m[:, k] for n, m, _ in parts if n == NAMES[kind] % j])
                  for j in range(len(XD))] for k in range(nq)])
    ctx.state(kind, layout, mode, how)


def run_wide(case, ctx):
    """More than ten schedules and qubits."""
    _, kind, qubits, nsched, mode = case
    nq = len(qubits)
    xdata = list(np.linspace(-1, 1, nsched))
    base = [[complex(2 - k, 3) + ((-1) ** j * (0.7 + (3 * j + k) % 7) + 0.04j * ((2 * j + k) % 3))
             * complex(math.cos(k + 0.3), math.sin(k + 0.3)) for j in range(nsched)]
            for k in range(nq)]
    exps = []
    for j in range(nsched):
        mean = np.array([base[k][j] for k in range(nq)])
        if mode == 'avg':
            exps.append((NAMES[kind] % j, mean, 7))
        else:
            wob = np.array([0.3, -0.3, 0.2j, -0.2j])
            exps.append((NAMES[kind] % j, mean[None, :] + np.outer(wob, np.arange(1, nq + 1)), 4))
    exps = exps[::-1]
    fitter = maker(kind, xdata, qubits)
    half = len(exps) // 2
    fitter.add_data([qsim.make_iq_result(exps[:half]), qsim.make_iq_result(exps[half:])],
                    refit=False)
    ctx.step()
    compare(ctx, fitter, base, 'wide')


def run_lattice(case, ctx):
    """Every table of points of a small alphabet, with exact zeros and ties."""
    _, kind, mode, first = case
    alphabet = [0, 1, -1, 2j]
    for rest in itertools.product(alphabet, repeat=3):
        points = [alphabet[first]] + list(rest)
        pts = np.array(points) - np.mean(points)
        sing = np.linalg.svd(np.stack([pts.real, pts.imag], axis=1), compute_uv=False)
        if sing[0] - sing[1] < 1e-6:
            continue
        other = [1j * p + 1 for p in points]
        # two results which cancel in part: the mean is (3 a - b) / 4 with b = 3 a - 4 mean
        parts = []
        for res in range(2):
            exps = []
            for j, (p, q) in enumerate(zip(points, other)):
                shift = [1, -3][res] * (p if j % 2 else 0)
                mem = np.array([p + shift, q - shift])
                shots = 3 if res == 0 else 1
                exps.append((NAMES[kind] % j,
                             mem if mode == 'avg' else np.array([mem] * shots), shots))
            parts.append(qsim.make_iq_result(exps))
        for order in (parts, parts[::-1]):
            fitter = maker(kind, XD, [1, 0])
            fitter.add_data(order, refit=False)
            ctx.step()
            compare(ctx, fitter, [points, other], 'lattice')
        ctx.state(kind, mode, [str(p) for p in points])


def run_reject(case, ctx):
    """Mixed or wrong data is rejected and not kept."""
    _, kind, mode, bad, place = case
    pts = base_points(1, 0.3, 0)
    exps = []
    for j in range(len(XD)):
        mem = np.array([pts[0][j]])
        exps.append((NAMES[kind] % j, mem if mode == 'avg' else np.array([mem, mem]), 2))
    good = qsim.make_iq_result(exps)
    if bad == 'counts':
        wrong = qsim.make_result([(NAMES[kind] % 0, {'0': 3}, dict(width=1))])
    elif bad == 'counts-later':
        wrong = qsim.make_iq_result(exps[:3])
        wrong.results += qsim.make_result([(NAMES[kind] % 3, {'0': 3}, dict(width=1))]).results
    elif bad == 'mixed-later':
        wrong = qsim.make_iq_result(exps[:3])
        mem = np.array([1 + 1j])
        wrong.results += qsim.make_iq_result([(
            NAMES[kind] % 3, mem if mode != 'avg' else np.array([mem, mem]), 2)]).results
    else:
        mem = np.array([1 + 1j])
        wrong = qsim.make_iq_result([(NAMES[kind] % 0,
                                      mem if mode != 'avg' else np.array([mem, mem]), 2)])
    fitter = maker(kind, XD, [1])
    ctx.step()
    if place == 'first' and bad != 'mixed':
        ctx.raises('reject', QiskitError, lambda: fitter.add_data(wrong, refit=False), bad)
        fitter.add_data(good, refit=False)
    elif place == 'list':
        ctx.raises('reject', QiskitError, lambda: fitter.add_data([good, wrong], refit=False), bad)
        ctx.raises('reject', QiskitError, lambda: fitter.add_data([wrong, good], refit=False), bad)
        fitter.add_data(good, refit=False)
    elif place == 'construct':
        ctx.raises('reject', QiskitError,
                   lambda: maker(kind, XD, [1], [good, wrong]), bad)
        fitter.add_data(good, refit=False)
    else:
        fitter.add_data(good, refit=False)
        ctx.raises('reject', QiskitError, lambda: fitter.add_data(wrong, refit=False), bad)
        compare(ctx, fitter, pts, 'kept')
        fitter.add_data(good, refit=False)
    compare(ctx, fitter, pts, 'after')


def run_rabi(case, ctx):
    """Exact Rabi oscillations."""
    _, qubits, freqs, direction, mode, size = case
    xdata = np.linspace(-1, 1, 41)
    exps = []
    unit = complex(math.cos(direction), math.sin(direction))
    for j, x in enumerate(xdata):
        mem = size * np.array([5 - 3j + unit * (2 + 0.5 * k) * math.cos(2 * math.pi * f * x)
                               for k, f in enumerate(freqs)])
        exps.append((NAMES['rabi'] % j, mem if mode == 'avg' else
                     np.array([mem + 0.5 * size, mem - 0.5 * size]), 2))
    res = qsim.make_iq_result(exps)
    fit = RabiFitter(res, xdata, qubits, [2 * size, freqs[0], 0, 0])
    ctx.step()
    for k, f in enumerate(freqs):
        fit.fit_data(qid=k, p0=[2 * size, f * 1.03, 0, 0])
        if mode != 'avg':
            ctx.close('spread', np.array(fit.ydata['0'][k]['std']) / size, [0.5] * len(xdata), 1e-6,
                      'spread of the shots')
    ctx.close('pi-amplitudes', [abs(v) for v in fit.pi_amplitude()], [0.5 / f for f in freqs],
              1e-4, 'pi amplitudes')
    for k, f in enumerate(freqs):
        ctx.close('pi', abs(fit.pi_amplitude(k)), 0.5 / f, 1e-4, 'pi amplitude')
        ctx.close('pi2', abs(fit.pi2_amplitude(k)), 0.25 / f, 1e-4, 'pi/2 amplitude')
        guess = fit.guess_params(k)
        ctx.close('guess', abs(guess[1]), f, 0.5, 'guessed frequency')
    ctx.outcome('rabi', mode)


def run_drag(case, ctx):
    """Exact DRAG parabolas."""
    _, qubits, centres, direction, mode, size = case
    xdata = np.linspace(-3, 3, 31)
    unit = complex(math.cos(direction), math.sin(direction))
    exps = []
    for j, x in enumerate(xdata):
        mem = size * np.array([-1 + 2j + unit * (1 + 0.3 * k) * (x - c) ** 2
                               for k, c in enumerate(centres)])
        exps.append((NAMES['drag'] % j, mem if mode == 'avg' else
                     np.array([mem + 0.1j * size, mem - 0.1j * size]), 2))
    fit = DragFitter(qsim.make_iq_result(exps), xdata, qubits, [size, 0, 0])
    ctx.step()
    ctx.close('centres', list(fit.drag_amplitude()), centres, 1e-4, 'DRAG amplitudes')
    for k, c in enumerate(centres):
        ctx.close('centre', fit.drag_amplitude(k), c, 1e-4, 'DRAG amplitude')
    ctx.outcome('drag', mode)


_BACK = {}


def backend(nq):
    """Fake device."""
    if nq not in _BACK:
        _BACK[nq] = {2: FakeOpenPulse2Q, 3: FakeOpenPulse3Q}[nq]()
    return _BACK[nq]


def check_measure(ctx, sched, qubits, start):
    """Every requested qubit, and no other, is acquired into its slot after the pulses."""
    acq = [(t, i) for t, i in sched.instructions if isinstance(i, pulse.Acquire)]
    ctx.equal('acquired', sorted(i.channel.index for _, i in acq), sorted(qubits))
    for t, i in acq:
        ctx.check('acquire-time', t >= start, 'acquired at %d' % t)
        ctx.equal('slot', i.mem_slot.index, qubits.index(i.channel.index))
    for t, i in sched.instructions:
        if isinstance(i, pulse.Play) and isinstance(i.channel, pulse.MeasureChannel):
            ctx.check('stimulus-time', t >= start, 'measured at %d' % t)
            ctx.check('stimulus', i.channel.index in qubits, 'measures %d' % i.channel.index)
    stim = {i.channel.index for t, i in sched.instructions
            if isinstance(i, pulse.Play) and isinstance(i.channel, pulse.MeasureChannel)}
    ctx.equal('stimulated', sorted(stim), sorted(qubits))


def plays(sched):
    """(channel, time) -> samples on drive channels."""
    return {(i.channel.index, t): np.array(i.pulse.samples) for t, i in sched.instructions
            if isinstance(i, pulse.Play) and isinstance(i.channel, pulse.DriveChannel)}


def run_schedules(case, ctx):
    """Rabi and DRAG schedules."""
    _, nq, qubits, width, sigma, ratio, shuffle = case
    back = backend(nq)
    config = back.configuration()
    drives = [config.drive(i) for i in range(nq)]
    chan = {q: q for q in range(nq)}
    if shuffle:
        drives = drives[1:] + drives[:1]
        chan = {q: (q + 1) % nq for q in range(nq)}
    kw = dict(drives=drives, inst_map=back.defaults().instruction_schedule_map,
              meas_map=config.meas_map, pulse_sigma=sigma)
    if ratio:
        kw['width_sigma_ratio'] = ratio
    sig = sigma if sigma else width / (ratio or 4)
    amps = [-0.7, 0.0, 0.35, 1.0] + ([] if shuffle else [round(0.05 * i, 2) for i in range(9)])
    scheds, xdata = rabi_schedules(amps, qubits, width, **kw)
    ctx.step(len(scheds))
    ctx.equal('xdata', [float(x) for x in xdata], amps)
    ctx.equal('number', [len(scheds), len({s.name for s in scheds})], [len(amps)] * 2)
    for j, (sched, amp) in enumerate(zip(scheds, amps)):
        ctx.equal('name', sched.name, NAMES['rabi'] % j)
        got = plays(sched)
        ctx.equal('drives', sorted(got), sorted((chan[q], 0) for q in qubits))
        want = pulse_lib.gaussian(duration=width, amp=amp, sigma=sig).samples
        for key, samples in got.items():
            ctx.check('pulse', samples.shape == want.shape and np.allclose(samples, want, atol=1e-9),
                      'Rabi pulse on %s' % (key,))
        check_measure(ctx, sched, qubits, width)
    betas = [-1.5, 0.0, 0.8] + ([] if shuffle else [0.3 * i - 2 for i in range(9)])
    amp_list = [[0.2, -0.35, 0.5], [0.1 + 0.3j, 0.2, -0.4j]][shuffle][:len(qubits)]
    scheds, xdata = drag_schedules(betas, qubits, amp_list, width, **kw)
    ctx.step(len(scheds))
    ctx.equal('xdata', [float(x) for x in xdata], betas)
    ctx.equal('number', [len(scheds), len({s.name for s in scheds})], [len(betas)] * 2)
    for j, (sched, beta) in enumerate(zip(scheds, betas)):
        ctx.equal('name', sched.name, NAMES['drag'] % j)
        got = plays(sched)
        ctx.equal('drives', sorted(got), sorted((chan[q], t) for q in qubits for t in (0, width)))
        for k, q in enumerate(qubits):
            for t, sign in ((0, 1), (width, -1)):
                want = pulse_lib.drag(duration=width, amp=sign * amp_list[k], beta=beta,
                                      sigma=sig).samples
                ctx.check('pulse', np.allclose(got[(chan[q], t)], want, atol=1e-9),
                          'DRAG pulse of qubit %d at %d' % (q, t))
        check_measure(ctx, sched, qubits, 2 * width)
    ctx.outcome(nq, len(qubits))


def run_missing(case, ctx):
    """Missing maps are errors."""
    _, which, what = case
    back = backend(2)
    config = back.configuration()
    kw = dict(drives=[config.drive(i) for i in range(2)],
              inst_map=back.defaults().instruction_schedule_map, meas_map=config.meas_map)
    kw[what] = None
    ctx.step()
    if which == 'rabi':
        ctx.raises('missing', QiskitError, lambda: rabi_schedules([0.1], [0], 16, **kw), what)
    else:
        ctx.raises('missing', QiskitError, lambda: drag_schedules([0.1], [0], [0.2], 16, **kw), what)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    dirs = 64 if full else 16
    for kind in ('rabi', 'drag'):
        for mode in ('avg', 'single'):
            for qubits in ([0], [1], [0, 1], [3, 1]):
                for num in range(dirs):
                    yield ['direction', kind, qubits, num, dirs, mode]
            for layout in itertools.product(range(3), repeat=6):
                seen = []
                for g in layout:
                    if g not in seen:
                        seen.append(g)
                if seen != sorted(seen):
                    continue
                for how in ('list', 'single'):
                    yield ['split', kind, list(layout), mode, how]
            for bad in ('counts', 'mixed', 'counts-later', 'mixed-later'):
                for place in ('first', 'second', 'list', 'construct'):
                    yield ['reject', kind, mode, bad, place]
    for kind in ('rabi', 'drag'):
        for mode in ('avg', 'single'):
            for first in range(4):
                yield ['lattice', kind, mode, first]
    for kind in ('rabi', 'drag'):
        for mode in ('avg', 'single'):
            for qubits in ([10, 2], [5, 3, 11, 0, 1, 2, 10, 4, 6, 9, 7]):
                for nsched in (4, 13):
                    yield ['wide', kind, qubits, nsched, mode]
    for mode in ('avg', 'single'):
        for num in range(dirs):
            ang = 2 * math.pi * num / dirs + 0.05
            for f in (0.7, 1.6) if not full else (0.5, 0.7, 1.1, 1.6, 2.4):
                yield ['rabi', [1], [f], ang, mode, 1]
                yield ['rabi', [1, 0], [f, 1.1], ang, mode, 1]
            for c in (-0.8, 0.0, 0.5):
                yield ['drag', [1], [c], ang, mode, 1]
                yield ['drag', [2, 0], [c, 0.3], ang, mode, 1]
            if num % 4 == 1:
                for size in (1e-5, 1e-2, 40, 1e5):
                    yield ['rabi', [2, 0, 1], [1.1, 0.8, 1.4], ang, mode, size]
                    yield ['drag', [0, 2, 1], [-0.4, 0.6, 0.1], ang, mode, size]
    for nq in (2, 3):
        for qubits in qsim.ordered_subsets(range(nq), range(1, nq + 1)):
            for width, sigma, ratio in ((16, 4, None), (20, None, None), (24, None, 6),
                                        (16, 10, 3), (12, 30, None), (40, 2.5, None)):
                for shuffle in (False, True):
                    yield ['schedules', nq, list(qubits), width, sigma, ratio, shuffle]
    for which in ('rabi', 'drag'):
        for what in ('inst_map', 'meas_map'):
            yield ['missing', which, what]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
