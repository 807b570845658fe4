"""C28: plots show exactly the data, fits and matrices they are asked for."""
import copy
import itertools
import math
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.axis  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection  # noqa: E402
from matplotlib.patches import Rectangle  # noqa: E402
import numpy as np  # noqa: E402
from qiskit import QiskitError  # noqa: E402
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter,  # noqa: E402
                                                 TensoredMeasFitter)
from qiskit.ignis.mitigation.expval import CTMPExpvalMeasMitigator  # noqa: E402
from qiskit.ignis.measurement.discriminator.iq_discriminators import (  # noqa: E402
    LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator)
from qiskit.ignis.verification import quantum_volume as qv  # noqa: E402
from qiskit.ignis.verification.entanglement.analysis import Plotter  # noqa: E402
from qiskit.ignis.verification.randomized_benchmarking import (  # noqa: E402
    RBFitter, PurityRBFitter)

from checks import c04, c14, c16, c22, c23, c24  # noqa: E402
from vlib import qsim  # noqa: E402

ID = 'C28'
BOUNDS = {
    'quick': 'RB fitters (standard, interleaved, purity, CNOT-dihedral) x patterns of 1-3 groups x '
             'every pattern index x 1-3 seeds x lengths as list or array x axes given or not x label '
             'x show; quantum volume of 1-3 qubit lists x 1-4 trials, every trial and depth, counts '
             'with every set of missing bit strings of 2 qubits; mitigator and calibration matrices '
             'of 1-3 qubits and every ordered qubit list, every group; all characterisation fitters '
             'x every qubit and series; discriminators of every ordered mask of <= 3 qubits and '
             'every ordered list of qubits to plot; contrast curves',
    'thorough': 'more patterns and seeds, missing bit strings of 3 qubits (all 255 subsets)',
}
ASSUMPTIONS = ['figures are inspected through the Axes on the Agg backend; plt.show is a stand-in '
               'that counts its calls',
               'the installed Matplotlib lacks Tick.label, which the histogram of the installed '
               'qiskit-terra uses; the harness provides it as an alias of label1']
if not hasattr(matplotlib.axis.Tick, 'label'):
    matplotlib.axis.Tick.label = property(lambda self: self.label1)

NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)')


# ------------------------------------------------------------------ what is on an Axes

def is_span(line):
    """A line over the whole axes."""
    return line.get_transform() not in (line.axes.transData,)


def curves(ax):
    """[(label, x, y)] of the drawn lines."""
    return [(ln.get_label(), np.array(ln.get_xdata(), float), np.real(np.array(ln.get_ydata())))
            for ln in ax.get_lines()
            if ln.get_linestyle() not in ('None', '', ' ') and len(ln.get_xdata())
            and not is_span(ln)]


def spans(ax):
    """Levels of horizontal and positions of vertical lines."""
    hor, ver = [], []
    for ln in ax.get_lines():
        if is_span(ln) and len(ln.get_xdata()) == 2:
            xs, ys = list(ln.get_xdata()), np.ravel(ln.get_ydata()).tolist()
            if xs == [0, 1]:
                hor.append(ys[0])
            else:
                ver.append(xs[0])
    return hor, ver


def points(ax, pick=lambda artist: True):
    """Sorted points drawn with markers and without lines."""
    out = []
    for ln in ax.get_lines():
        if ln.get_linestyle() in ('None', '', ' ') and ln.get_marker() not in ('None', None, '',
                                                                             '_', '|') \
                and not is_span(ln) and pick(ln):
            out += list(zip(np.array(ln.get_xdata(), float), np.real(np.array(ln.get_ydata()))))
    for col in ax.collections:
        if isinstance(col, PathCollection) and pick(col):
            out += [tuple(p) for p in np.array(col.get_offsets(), float).reshape(-1, 2)]
    return sorted((float(x), float(y)) for x, y in out)


def bars(ax):
    """Sorted error bars (x, low, high)."""
    out = []
    for col in ax.collections:
        if isinstance(col, LineCollection):
            for seg in col.get_segments():
                seg = np.array(seg, float)
                if len(seg) == 2:
                    out.append((seg[0, 0], min(seg[:, 1]), max(seg[:, 1])))
    return sorted(tuple(float(v) for v in b) for b in out)


def same_table(ctx, clause, got, want, what):
    """Two lists of tuples, as sorted tables."""
    got, want = np.array(sorted(got), float), np.array(sorted(want), float)
    ctx.check(clause, got.shape == want.shape, '%s: %s drawn, %s expected' % (
        what, got.tolist(), want.tolist()))
    if got.size and got.shape == want.shape:
        # sort again by rounded values, so that rounding errors do not reorder the rows
        got = np.array(sorted(np.round(got, 7).tolist()))
        want = np.array(sorted(np.round(want, 7).tolist()))
        ctx.close(clause, got.ravel().tolist(), want.ravel().tolist(), 1e-5, what)


def same_curves(ctx, clause, ax, want):
    """The curves of an Axes are those wanted, in any order."""
    got = [list(zip(x.tolist(), y.tolist())) for _, x, y in curves(ax)]
    ctx.equal(clause + '-number', len(got), len(want))
    left = list(got)
    for curve in want:
        hit = None
        for i, cand in enumerate(left):
            if len(cand) == len(curve) and np.allclose(np.array(cand, float),
                                                       np.array(curve, float), atol=1e-6):
                hit = i
        ctx.check(clause, hit is not None, 'no curve through %s, only %s' % (curve[:4], left))
        if hit is not None:
            left.pop(hit)


def labelled(ctx, clause, ax, word, curve):
    """The curve with the label is the wanted one."""
    got = [(x, y) for label, x, y in entries(ax) if word.lower() in label.lower()]
    ctx.equal(clause + '-label', len(got), 1)
    ctx.close(clause, list(got[0][0]) + list(got[0][1]),
              [float(c[0]) for c in curve] + [float(c[1]) for c in curve], 1e-6,
              'curve %s' % word)


def entries(ax):
    """[(label, x, y)] of everything labelled."""
    out = []
    for handle, label in zip(*ax.get_legend_handles_labels()):
        line = handle
        if hasattr(handle, 'lines') and not hasattr(handle, 'get_xdata'):
            line = handle.lines[0]
        if line is not None and hasattr(line, 'get_xdata'):
            out.append((label, np.array(line.get_xdata(), float), np.array(line.get_ydata(), float)))
        else:
            out.append((label, np.array([]), np.array([])))
    return out


def numbers(text):
    """Floats in a text."""
    return [float(x) for x in NUM.findall(text)]


def near(ctx, clause, got, want, what):
    """Numbers in a label: 3 significant places (absolute for larger ones), 2 for errors."""
    ctx.equal(clause + '-count', len(got), len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        if not np.isfinite(y):
            ctx.check(clause, not np.isfinite(x), '%s: %s, not %s' % (what, x, y))
            continue
        tol = max(abs(y) * (0.06 if i % 2 else 0.002), 6e-4 if i == 0 else 0, 1e-12)
        ctx.check(clause, abs(x - y) <= tol, '%s: number %d is %s, not %s' % (what, i, x, y))


class Stage:
    """Where a plot goes: a given Axes, or a figure of its own."""

    def __init__(self, ctx, given, show=None):
        self.ctx, self.given, self.show = ctx, given, show
        plt.close('all')
        # a bystander figure which must stay empty
        self.other = plt.figure().gca()
        self.ax = plt.figure().gca() if given else None
        plt.figure(self.other.figure.number)
        self.shown = 0
        self.real = plt.show

    def __enter__(self):
        def stand_in(*_, **__):
            self.shown += 1
        plt.show = stand_in
        return self

    def __exit__(self, *exc):
        plt.show = self.real

    def axes(self, returned=None):
        """The Axes drawn on, after all checks."""
        figs = plt.get_fignums()
        self.ctx.equal('bystander', [len(self.other.get_lines()), len(self.other.collections),
                                     len(self.other.patches), len(self.other.images),
                                     self.other.get_title()], [0, 0, 0, 0, ''])
        self.ctx.equal('figures', len(figs), 2)
        if self.show is not None:
            self.ctx.equal('shown', self.shown, 1 if self.show else 0)
        if self.given:
            axis = self.ax
        else:
            num = [f for f in figs if f != self.other.figure.number][0]
            axis = plt.figure(num).axes[0]
        if returned is not None:
            self.ctx.check('returned', returned is axis, 'another Axes is returned')
        return axis


# ------------------------------------------------------------------ randomized benchmarking

def decay(xdata, params, power=1):
    """Points of the decay a * alpha ** (power * x) + b."""
    a, alpha, b = params
    return [(float(x), a * alpha ** (power * float(x)) + b) for x in xdata]


def rb_fitter(kind, pattern, seeds, nlen, form):
    """A fitter with data."""
    lengths = c14.lengths_for(pattern, nlen)
    if kind == 'purity':
        lengths = [[1 + 3 * k for k in range(nlen)] for _ in pattern]
    plain = lengths
    if form == 'array':
        lengths = np.array(lengths)
    if kind == 'rb':
        exps = c14.all_experiments('std', pattern, seeds, nlen)
        return RBFitter(c14.result_of(pattern, list(exps.values())), lengths, pattern), plain
    if kind == 'purity':
        exps = c14.pur_experiments(pattern, seeds, nlen)
        nq = len(pattern[0])
        bases = [''.join(reversed(b)) for b in itertools.product('ZXY', repeat=nq)]
        std = [c14.result_of(pattern, [exps[s, b, k] for k in range(nlen)])
               for s in seeds for b in bases]
        return PurityRBFitter(std, 3 ** nq, lengths, pattern), plain
    one, two, cls, _ = c14.TWO[kind]
    sets = [c14.all_experiments(k, pattern, seeds, nlen, alpha)
            for k, alpha in ((one, 0.95), (two, 0.9))]
    results = [c14.result_of(pattern, list(exps.values())) for exps in sets]
    return cls(results[0], results[1], lengths, pattern), plain


def run_rb(case, ctx):
    """Plots of the RB fitters."""
    _, kind, pattern, seeds, form, p, given, label, show = case
    fitter, lengths = rb_fitter(kind, pattern, seeds, 5, form)
    before = copy.deepcopy([fitter.raw_data, fitter.ydata, fitter.fit])
    with Stage(ctx, given, show) as stage:
        fitter.plot_rb_data(p, stage.ax, label, show)
    ctx.step()
    axis = stage.axes()
    xdata = lengths[p]
    shown = [float(v) for v in xdata]
    if kind in ('rb', 'purity'):
        src = fitter if kind == 'rb' else fitter.rbfit_pur
        raw, ydata, fit = src.raw_data[p], src.ydata[p], src.fit[p]
        same_table(ctx, 'rb-data', points(axis),
                   [(x, y) for row in raw for x, y in zip(shown, row)], 'data of the seeds')
        same_curves(ctx, 'rb-curves', axis, [list(zip(shown, ydata['mean'])),
                                             decay(xdata, fit['params'],
                                                   2 if kind == 'purity' else 1)])
        spread = [] if ydata['std'] is None else [
            (x, m - s, m + s) for x, m, s in zip(shown, ydata['mean'], ydata['std'])]
        same_table(ctx, 'rb-spread', bars(axis), spread, 'spread of the seeds')
        name = 'epc' if kind == 'rb' else 'pepc'
        values = [fit['params'][1], fit['params_err'][1], fit[name], fit[name + '_err']]
    else:
        marked = {'x': 0, '+': 1}
        for mark, i in marked.items():
            same_table(ctx, 'two-data', points(axis, lambda a, m=mark: a.get_marker() == m),
                       [(x, y) for row in fitter.raw_data[i][p] for x, y in zip(shown, row)],
                       'data %d of the seeds' % i)
        want = [decay(xdata, fitter.fit[i][p]['params']) for i in (0, 1)]
        same_curves(ctx, 'two-curves', axis, want)
        words = ('standard', 'interleaved') if kind == 'interleaved' else ('|0...0>', '|+...+>')
        for word, curve in zip(words, want):
            labelled(ctx, 'two-labels', axis, word, curve)
        est = 'epc_est' if kind == 'interleaved' else 'epg_est'
        fit = (fitter.fit_int if kind == 'interleaved' else fitter.fit_cnotdihedral)[p]
        values = [fit['alpha'], fit['alpha_err']]
        if kind == 'interleaved':
            values += [fit['alpha_c'], fit['alpha_c_err']]
        values += [fit[est], fit[est + '_err']]
    texts = [t.get_text() for t in axis.texts]
    ctx.equal('label-shown', len(texts), 1 if label else 0)
    if label:
        near(ctx, 'label', numbers(texts[0]), values, texts[0])
    now = [fitter.raw_data, fitter.ydata, fitter.fit]
    ctx.check('unchanged', repr(now) == repr(before), 'the plot changes the data')
    ctx.outcome(kind, len(texts))


# ------------------------------------------------------------------ quantum volume

def qv_counts(depth, trial, missing=()):
    """Counts of a trial."""
    return {format(i, '0%db' % depth): 20 + (i * 37 + trial * 53 + depth * 11) % 61
            for i in range(2 ** depth) if i not in missing}


def qv_weights(depth, trial):
    """Ideal weights, all different."""
    return [1 + (i * 7 + trial * 3) % (2 ** depth + 1) for i in range(2 ** depth)]


def qv_fitter(lists, ntrials, missing=()):
    """Fitter of all trials."""
    depths = [len(q) for q in lists]
    keys = [(d, t) for t in range(ntrials) for d in depths]
    name = 'qv_depth_%d_trial_%d'
    res = qsim.make_result([(name % k, qv_counts(*k, missing), dict(width=k[0])) for k in keys])
    ideal = c16.sv_result([(name % k, c16.state_of(qv_weights(*k))) for k in keys])
    return qv.QVFitter(res, ideal, lists)


def run_qv(case, ctx):
    """Summary of a quantum volume experiment."""
    _, lists, ntrials, given, show, title = case
    fitter = qv_fitter(lists, ntrials)
    before = copy.deepcopy(np.array(fitter.ydata))
    kwargs = {'default': {}, 'own': dict(title='my title'), 'none': dict(set_title=False)}[title]
    with Stage(ctx, given, show) as stage:
        fig = fitter.plot_qv_data(stage.ax, show, **kwargs)
    ctx.step()
    axis = stage.axes()
    ctx.check('qv-figure', (fig is None) if given else (fig is axis.figure), fig)
    ydata = np.array(fitter.ydata)
    ctx.close('unchanged', ydata.ravel().tolist(), before.ravel().tolist(), 1e-12)
    xs = list(range(len(lists)))
    want = [list(zip(xs, ydata[0])), list(zip(xs, ydata[2]))]
    if len(xs) > 1:
        same_curves(ctx, 'qv-curves', axis, want)
    for word, curve in zip(('exp', 'ideal'), want):
        labelled(ctx, 'qv-labelled', axis, word, curve)
    same_table(ctx, 'qv-error', bars(axis), [(x, y - 2 * s, y + 2 * s) for i in (0, 2)
                                             for x, y, s in zip(xs, ydata[i], ydata[i + 1])],
               'two sigma')
    ctx.close('qv-threshold', spans(axis)[0], [2 / 3], 1e-9)
    ctx.equal('qv-subsets', [re.findall(r'\d+', t.get_text()) for t in axis.get_xticklabels()],
              [[str(v) for v in q] for q in lists])
    ctx.close('qv-ticks', list(axis.get_xticks()), xs, 1e-9)
    text = axis.get_title()
    if title == 'own':
        ctx.equal('qv-title', text, 'my title')
    elif title == 'none':
        ctx.equal('qv-title', text, '')
    else:
        ctx.equal('qv-title', numbers(text), [len(lists[-1]), ntrials])
    ctx.outcome(title, ydata.round(6).tolist())


def run_qvtrial(case, ctx):
    """Distribution of one trial."""
    _, lists, ntrials, depth, trial, missing, given = case
    fitter = qv_fitter(lists, ntrials, missing)
    with Stage(ctx, given) as stage:
        if given:
            plt.sca(stage.ax)
        fig = fitter.plot_qv_trial(depth, trial, ax=stage.ax)
    ctx.step()
    axis = stage.axes()
    ctx.check('trial-figure', (fig is None) if given else (fig is axis.figure), fig)
    counts, weights = qv_counts(depth, trial, missing), qv_weights(depth, trial)
    shots = sum(counts.values())
    ticks = dict(zip([t.get_text() for t in axis.get_xticklabels()], axis.get_xticks()))
    strings = [format(i, '0%db' % depth) for i in range(2 ** depth)]
    ctx.equal('trial-strings', sorted(ticks), strings)
    rects = [r for r in axis.patches if isinstance(r, Rectangle)]
    for i, string in enumerate(strings):
        here = [r for r in rects if abs(r.get_x() + r.get_width() / 2 - ticks[string]) < 0.26]
        exp = sorted(r.get_height() for r in here if r.get_fill())
        ideal = sorted(r.get_height() for r in here if not r.get_fill())
        ctx.close('trial-exp', sum(exp), counts.get(string, 0) / shots, 1e-9,
                  'measured frequency shown at %s' % string)
        ctx.close('trial-ideal', ideal, [weights[i] / sum(weights)], 1e-9,
                  'ideal probability shown at %s' % string)
    ctx.close('trial-median', spans(axis)[0], [float(np.median(weights)) / sum(weights)], 1e-9)
    heavy = c16.heavy_set(weights)
    hop = sum(counts.get(s, 0) for s in heavy) / shots
    label = [t for t in axis.get_legend_handles_labels()[1] if 'HOP' in t]
    ctx.equal('trial-hop-label', len(label), 1)
    ctx.close('trial-hop', numbers(label[0]), [hop], 6e-4)
    ctx.equal('trial-title', numbers(axis.get_title()), [2 ** depth, trial])
    ctx.outcome(round(hop, 6))


def run_qvacc(case, ctx):
    """Heavy output probability against the number of trials."""
    _, lists, ntrials, depth, given = case
    fitter = qv_fitter(lists, ntrials)
    with Stage(ctx, given) as stage:
        fig = fitter.plot_hop_accumulative(depth, ax=stage.ax)
    ctx.step()
    axis = stage.axes()
    ctx.check('acc-figure', (fig is None) if given else (fig is axis.figure), fig)
    hops = []
    for t in range(ntrials):
        counts = qv_counts(depth, t)
        heavy = c16.heavy_set(qv_weights(depth, t))
        hops.append(sum(counts.get(s, 0) for s in heavy) / sum(counts.values()))
    mean = [sum(hops[:t + 1]) / (t + 1) for t in range(ntrials)]
    sigma = [math.sqrt(m * (1 - m) / (t + 1)) for t, m in enumerate(mean)]
    same_table(ctx, 'acc-points', points(axis), list(enumerate(hops)), 'trials')
    labelled(ctx, 'acc-mean', axis, 'cumulative', list(enumerate(mean)))
    same_table(ctx, 'acc-error', bars(axis),
               [(t, m - 2 * s, m + 2 * s) for t, (m, s) in enumerate(zip(mean, sigma))], '2 sigma')
    ctx.close('acc-threshold', spans(axis)[0], [2 / 3], 1e-9)
    ctx.equal('acc-title', numbers(axis.get_title()), [2 ** depth])
    low, high = axis.get_ylim()
    ctx.check('acc-range', low <= mean[-1] <= high, 'the final value is outside the range')
    ctx.outcome([round(h, 6) for h in hops])


# ------------------------------------------------------------------ matrices

def matrix_axes(ctx, clause, axis, want, labels):
    """Image and labels of a matrix plot."""
    ctx.equal(clause + '-images', len(axis.images), 1)
    image = axis.images[0]
    got = np.array(image.get_array(), float)
    ctx.equal(clause + '-shape', list(got.shape), list(np.shape(want)))
    ctx.close(clause, got.ravel().tolist(), np.array(want).ravel().tolist(), 1e-8, 'matrix')
    low, high = image.get_clim()
    ctx.check(clause + '-scale', low <= np.min(want) + 1e-9 and high >= np.max(want) - 1e-9,
              'colours from %s to %s' % (low, high))
    for ticks, texts in ((axis.get_xticks(), axis.get_xticklabels()),
                         (axis.get_yticks(), axis.get_yticklabels())):
        ctx.close(clause + '-ticks', list(ticks), list(range(len(labels))), 1e-9)
        ctx.equal(clause + '-states', [t.get_text() for t in texts], list(labels))
    ctx.check(clause + '-prepared', 'prepared' in axis.get_xlabel().lower(), axis.get_xlabel())
    ctx.check(clause + '-measured', 'measured' in axis.get_ylabel().lower(), axis.get_ylabel())


def run_matrix(case, ctx):
    """Assignment and mitigation matrices."""
    _, kind, n, qubits, which, given = case
    if kind == 'ctmp':
        gens = [('0', '1', [q]) for q in range(n)] + [('1', '0', [q]) for q in range(n)]
        gens += [('01', '10', [q, q + 1]) for q in range(n - 1)]
        mit = CTMPExpvalMeasMitigator(gens, [0.02 + 0.013 * i for i in range(len(gens))])
    else:
        mit = c04.build(kind, n, 1)
    want = (mit.assignment_matrix if which == 'assignment' else mit.mitigation_matrix)(qubits)
    want = np.array(want, float)
    ctx.check('matrix-not-symmetric', not np.allclose(want, want.T), 'case without power')
    with Stage(ctx, given) as stage:
        func = mit.plot_assignment_matrix if which == 'assignment' else mit.plot_mitigation_matrix
        got = func(qubits, stage.ax) if given else func(qubits)
    ctx.step()
    axis = stage.axes(got)
    num = n if qubits is None else len(qubits)
    matrix_axes(ctx, 'matrix', axis, want, [format(i, '0%db' % num) for i in range(2 ** num)])
    ctx.outcome(kind, which, want.round(6).tolist())


def run_cal(case, ctx):
    """Calibration matrices of the measurement fitters."""
    _, sizes, orders, index, given, show = case
    n = sum(sizes)
    labels = [[format(i, '0%db' % s) for i in order] for s, order in zip(sizes, orders)]
    exps = []
    for j in range(2 ** n):
        bits = format(j, '0%db' % n)
        counts = {format(i, '0%db' % n): (i * 31 + j * 17) % 23 + (150 if i == j else 1)
                  for i in range(2 ** n)}
        exps.append(('cal_' + bits, counts, dict(width=n)))
    if len(sizes) == 1:
        fitter = CompleteMeasFitter(qsim.make_result(exps), labels[0])
        want = fitter.cal_matrix
    else:
        pattern, at = [], 0
        for s in sizes:
            pattern.append(list(range(at, at + s)))
            at += s
        wanted = {'0' * n, '1' * n}
        for s in range(2 ** max(sizes)):
            wanted.add(''.join(format(s % 2 ** k, '0%db' % k) for k in reversed(sizes)))
        exps = [e for e in exps if e[0][4:] in wanted]
        fitter = TensoredMeasFitter(qsim.make_result(exps), pattern, labels)
        want = fitter.cal_matrices[index]
    want = np.array(want)
    with Stage(ctx, given, show) as stage:
        if len(sizes) == 1:
            fitter.plot_calibration(stage.ax, show)
        else:
            fitter.plot_calibration(index, stage.ax, show)
    ctx.step()
    matrix_axes(ctx, 'calibration', stage.axes(), want, labels[index])
    ctx.outcome(want.round(6).tolist())


def run_unset(case, ctx):
    """No calibration yet."""
    ctx.raises('calibration-unset', QiskitError,
               lambda: CompleteMeasFitter(None, ['0', '1']).plot_calibration(show_plot=False),
               'plot without data')
    ctx.raises('calibration-unset', QiskitError,
               lambda: TensoredMeasFitter(None, [[0], [1]]).plot_calibration(0, show_plot=False),
               'plot without data')


# ------------------------------------------------------------------ characterisation

TRUE = {
    't1': lambda x, k: (0.9 - 0.1 * k) * math.exp(-x / (9 + 4 * k)) + 0.05,
    't2': lambda x, k: 0.5 + 0.4 * math.exp(-x / (9 + 4 * k)),
    't2star': lambda x, k: 0.5 + 0.4 * math.exp(-x / (9 + 4 * k)) * math.cos(
        2 * math.pi * (0.09 + 0.01 * k) * x),
    'zz': lambda x, k: 0.5 + 0.4 * math.cos(2 * math.pi * (0.09 + 0.012 * k) * x),
}


def model(kind, x, par):
    """The fitted curve."""
    if kind in ('t1', 't2'):
        return par[0] * math.exp(-x / par[1]) + par[2]
    if kind == 't2star':
        return par[0] * math.exp(-x / par[1]) * math.cos(2 * math.pi * par[2] * x + par[3]) + par[4]
    if kind == 'zz':
        return par[0] * math.cos(2 * math.pi * par[1] * x + par[2]) + par[3]
    return None


def char_fitter(kind, qubits, form):
    """A fitter with data of several qubits."""
    num = len(qubits)
    if kind in ('rabi', 'drag'):
        xdata = np.linspace(-1, 1, 21)
        exps = []
        for j, x in enumerate(xdata):
            mem = np.array([5 - 3j + (2 + 0.5 * k) * (
                math.cos(2 * math.pi * (0.8 + 0.1 * k) * x) if kind == 'rabi'
                else (x - 0.1 - 0.2 * k) ** 2) for k in range(num)])
            exps.append((c23.NAMES[kind] % j, np.array([mem + 0.3, mem - 0.3]), 2))
        fitter = c23.maker(kind, xdata if form == 'array' else xdata.tolist(), qubits, None,
                           [2, 0.85, 0, 0] if kind == 'rabi' else [2, 0, 0.1])
        fitter.add_data(qsim.make_iq_result(exps))
        return fitter, xdata
    if kind in TRUE:
        xdata = np.arange(1.0, 22.0, 2.0)
        curves_ = {s: [lambda x, k=k, s=s: TRUE[kind](x, k + 0.5 * int(s)) for k in range(num)]
                   for s in c22.series_of(kind)}
    else:
        xdata = np.arange(0, 12)
        curves_ = {'0': [lambda x, k=k: 0.5 + 0.02 * (k + 1) * (x % 5) - 0.03 * k
                         for k in range(num)]}
    fitter, _ = c22.fitted(kind, xdata if form == 'array' else xdata.tolist(), qubits, curves_,
                           {'t1': [1, 10, 0], 't2': [0.5, 10, 0.5],
                            't2star': [0.4, 10, 0.1, 0, 0.5],
                            'zz': [0.4, 0.1, 0, 0.5]}.get(kind, [0.0, 0.5]))
    return fitter, xdata


def run_char(case, ctx):
    """Plots of the characterisation fitters."""
    _, kind, qubits, k, ser, form, given, show = case
    fitter, xdata = char_fitter(kind, qubits, form)
    xs = [float(x) for x in xdata]
    before = repr([fitter.ydata, fitter.params])
    both = ser == 'both'
    with Stage(ctx, given, show) as stage:
        if both:
            got = fitter.plot_ZZ(k, stage.ax, show)
        elif ser == 'default':
            got = fitter.plot(k, ax=stage.ax, show_plot=show)
        else:
            got = fitter.plot(k, ser, stage.ax, show)
    ctx.step()
    axis = stage.axes(got)
    sers = ['0', '1'] if both else ['0' if ser == 'default' else ser]
    data, err, fits = [], [], []
    for s in sers:
        dat = fitter.ydata[s][k]
        mean, std = np.real(dat['mean']), np.real(dat['std'])
        data += list(zip(xs, mean))
        err += [(x, m - d, m + d) for x, m, d in zip(xs, mean, std)]
        par = fitter.params[s][k]
        ref = [model(kind, x, par) for x in xs]
        if ref[0] is None:
            ref = [float(np.real(fitter.fit_fun(x, *par))) for x in xs]
        fits.append(list(zip(xs, ref)))
    same_table(ctx, 'char-data', points(axis), data, 'data')
    same_table(ctx, 'char-error', bars(axis), err, 'error bars')
    same_curves(ctx, 'char-fit', axis, fits)
    ctx.check('char-qubit', re.findall(r'\d+', axis.get_title())[-1:] == [str(qubits[k])],
              'title %s for qubit %d' % (axis.get_title(), qubits[k]))
    labels = axis.get_legend_handles_labels()[1]
    if both:
        for s, curve in zip(sers, fits):
            labelled(ctx, 'char-series', axis, 'state ' + s, curve)
        ctx.check('char-spectator', all('Q9' in t for t in labels), labels)
    elif kind in TRUE:
        ctx.equal('char-labels', len(labels), 1)
        want = fitter.time(k, sers[0])
        num = numbers(labels[0].split(':')[1])
        ctx.check('char-time', len(num) == 1 and abs(num[0] - want) < 0.051,
                  'label %s, time %s' % (labels[0], want))
    else:
        ctx.equal('char-labels', labels, ['Q%d' % qubits[k]])
    if kind == 'rabi':
        ctx.close('char-pi', spans(axis)[1], [fitter.pi_amplitude(k)], 1e-9, 'pi amplitude')
    if kind in TRUE:
        ctx.check('char-unit', 'micro-seconds' in axis.get_xlabel(), axis.get_xlabel())
    ctx.equal('unchanged', repr([fitter.ydata, fitter.params]), before)
    ctx.outcome(kind, [[round(float(v[1]), 5) for v in f] for f in fits])


# ------------------------------------------------------------------ discriminators

def clusters(slots, states):
    """IQ memory of each calibration state: three shots near a corner, one elsewhere."""
    out = {}
    for i, s in enumerate(states):
        rows = []
        for shot in range(4):
            rows.append([complex((4 if (i + shot // 3) % 2 else -4) + 0.3 * shot + 0.1 * q,
                                 (3 + q) * (1 if i < 2 else -1) + 0.2 * shot - 0.7 * q)
                         for q in range(slots)])
        out[s] = np.array(rows)
    return out


def run_disc(case, ctx):
    """IQ planes of a discriminator."""
    _, kind, slots, mask, nstates, shown, flag, data, title, axs = case
    states = [format(i, '0%db' % max(1, (nstates - 1).bit_length())) for i in range(nstates)]
    mems = clusters(slots, states)
    cal = qsim.make_iq_result([('cal_' + s, mems[s], 4) for s in states])
    if kind == 'sklearn':
        fitter = SklearnIQDiscriminator(c24.Recorder(states), cal, mask)
    else:
        fitter = {'linear': LinearIQDiscriminator, 'quadratic': QuadraticIQDiscriminator}[kind](
            cal, mask)
    want_qubits = list(mask) if shown is None else list(shown)
    plt.close('all')
    given = None
    if axs:
        _, given = plt.subplots(len(want_qubits) + axs - 1, 1)
    got, fig = fitter.plot(given, False, data, flag, shown, title)
    ctx.step()
    ctx.check('disc-figure', (fig is None) == bool(axs), 'figure %s' % fig)
    ctx.check('disc-axes', len(got) >= len(want_qubits), len(got))
    if axs:
        for a, b in zip(np.ravel(np.array(given)), got):
            ctx.check('disc-axes', a is b, 'other axes')
    else:
        ctx.check('disc-axes', all(a.figure is fig for a in got), 'axes of another figure')
    feats = {s: c24.rows(mems[s], mask) for s in states}
    wrong = []
    if flag:
        for s in states:
            for row, lab in zip(feats[s], fitter.discriminate(feats[s])):
                if str(lab) != s:
                    wrong.append(row)
    for axis, q in zip(got, want_qubits):
        at = mask.index(q)
        red = {(round(r[at], 6), round(r[len(mask) + at], 6)) for r in wrong}

        def labelled_as(name, axis=axis):
            """points with a label"""
            return sorted({(round(float(p[0]), 6), round(float(p[1]), 6))
                           for col in axis.collections if col.get_label() == name
                           for p in np.array(col.get_offsets())})
        total = set()
        for s in states:
            want = sorted({(round(r[at], 6), round(r[len(mask) + at], 6)) for r in feats[s]})
            total |= set(want)
            ctx.equal('disc-points', labelled_as(s), want if data else [])
        marked = {(round(float(p[0]), 6), round(float(p[1]), 6))
                  for col in axis.collections if col.get_label() not in states
                  for p in np.array(col.get_offsets())}
        ctx.equal('disc-misclassified', sorted(marked), sorted(red) if data else [])
        ctx.equal('disc-title', axis.get_title(), 'Qubit %d' % q if title else '')
        legend = axis.get_legend()
        ctx.equal('disc-legend', sorted(t.get_text() for t in legend.get_texts()) if legend else [],
                  sorted(states) if data else [])
    for axis in got[len(want_qubits):]:
        ctx.equal('disc-extra', len(axis.collections), 0)
    ctx.outcome(len(wrong))


def run_discnew(case, ctx):
    """New data on given axes."""
    _, slots, mask, split, color = case
    states = ['0', '1']
    mems = clusters(slots, states)
    cal = qsim.make_iq_result([('cal_' + s, mems[s], 4) for s in states])
    fitter = SklearnIQDiscriminator(c24.Recorder(states), cal, mask)
    new = {'x%d' % i: c24.points(i + 1, 3, slots, False) for i in range(3)}
    exps = [(n, m, 3) for n, m in new.items()] + [('cal_0', mems['0'], 4)]
    results = [qsim.make_iq_result(exps[:split]), qsim.make_iq_result(exps[split:])] \
        if split else qsim.make_iq_result(exps)
    plt.close('all')
    _, axs = plt.subplots(len(mask), 1)
    fitter.plot_xdata(axs, results, color)
    ctx.step()
    for idx, axis in enumerate(np.ravel(np.array(axs))):
        want = [(r[idx], r[len(mask) + idx]) for m in new.values() for r in c24.rows(m, mask)]
        same_table(ctx, 'new-points', points(axis), want, 'new data')
        if color:
            got = [tuple(np.round(c[:3], 3)) for col in axis.collections
                   for c in col.get_facecolors()]
            ctx.check('new-colour', set(got) == {tuple(np.round(
                matplotlib.colors.to_rgb(color), 3))}, got)
    if len(mask) > 1:
        ctx.raises('new-axes', QiskitError,
                   lambda: fitter.plot_xdata(plt.subplots(1, 1)[1], results), 'too few axes')
    plt.close('all')
    ctx.outcome(len(mask))


def run_discreject(case, ctx):
    """What cannot be plotted."""
    _, slots, mask = case
    states = ['0', '1']
    mems = clusters(slots, states)
    cal = qsim.make_iq_result([('cal_' + s, mems[s], 4) for s in states])
    fitter = SklearnIQDiscriminator(c24.Recorder(states), cal, mask)
    for q in range(slots):
        if q not in mask:
            ctx.raises('disc-mask', QiskitError, lambda q=q: fitter.plot(qubits_to_plot=[q]),
                       'qubit outside the mask')
            ctx.raises('disc-mask', QiskitError,
                       lambda q=q: fitter.plot(qubits_to_plot=[mask[0], q]),
                       'qubit outside the mask')
    if len(mask) > 1:
        ctx.raises('disc-few', QiskitError, lambda: fitter.plot(plt.subplots(1, 1)[1]),
                   'too few axes')
        ctx.raises('disc-boundary', QiskitError, lambda: fitter.plot(show_boundary=True),
                   'boundary of several qubits')
    else:
        real = LinearIQDiscriminator(cal, mask)
        axs, _ = real.plot(show_boundary=True)
        # the background consists of filled contours over (at least) all the data
        regions = [c for c in axs[0].collections if not isinstance(c, PathCollection)]
        plain, _ = real.plot(show_boundary=False)
        ctx.check('disc-background', len(regions) > 0 and not [
            c for c in plain[0].collections if not isinstance(c, PathCollection)],
            'no background')
        pts = np.array([r for s in states for r in c24.rows(mems[s], mask)])
        low, high = axs[0].get_xlim()
        ctx.check('disc-range', low <= pts[:, 0].min() and high >= pts[:, 0].max(), (low, high))
        low, high = axs[0].get_ylim()
        ctx.check('disc-range', low <= pts[:, 1].min() and high >= pts[:, 1].max(), (low, high))
    ctx.step()
    plt.close('all')


def run_contrast(case, ctx):
    """Contrast curves."""
    _, label, num, mitigated = case
    xs = np.linspace(0, 2 * np.pi, num)
    ys = np.cos(3 * xs) * 0.4 + 0.5
    ym = np.cos(3 * xs) * 0.5 + 0.5
    plt.close('all')
    plotter = Plotter(label)
    plotter.sin_plotter(xs, ys, ym if mitigated else None)
    ctx.step()
    axis = plt.gca()
    want = [list(zip(xs, ys))] + ([list(zip(xs, ym))] if mitigated else [])
    same_curves(ctx, 'contrast', axis, want)
    if mitigated:
        labelled(ctx, 'contrast-raw', axis, 'raw', want[0])
        labelled(ctx, 'contrast-mitigated', axis, 'mitigated', want[1])
    ctx.equal('contrast-title', axis.get_title(), plotter.title_maker()[1 if mitigated else 0])
    plt.close('all')
    ctx.outcome(label, num)


# ------------------------------------------------------------------ enumeration

def cases(tier):
    """All cases, simplest first."""
    big = tier == 'thorough'
    out = [['unset']]
    for label, num, mit in itertools.product(('mqc', 'po'), (2, 5, 9), (0, 1)):
        out.append(['contrast', label, num, mit])
    patterns = [[[0]], [[0, 1]], [[0], [1]], [[1], [0, 2]], [[2], [0, 1], [3]]]
    if big:
        patterns += [[[1, 0]], [[0, 1, 2]], [[0, 2], [1]], [[3], [1], [0]], [[0, 1], [2, 3]]]
    seedsets = [[0], [0, 1], [0, 1, 2]] + ([[0, 1, 2, 3, 4]] if big else [])
    for kind in ('rb', 'interleaved', 'dihedral'):
        for pattern, seeds, form in itertools.product(patterns, seedsets, ('list', 'array')):
            for p in range(len(pattern)):
                for given, label, show in itertools.product((0, 1), repeat=3):
                    if not big and seeds != [0, 1] and (given, label, show) not in (
                            (0, 1, 0), (1, 0, 0)):
                        continue
                    out.append(['rb', kind, pattern, seeds, form, p, given, label, show])
    for pattern in [[[0]], [[0], [1]], [[0, 1]]]:
        for seeds, form in itertools.product([[0], [0, 1, 2]], ('list', 'array')):
            for p in range(len(pattern)):
                for given, label, show in itertools.product((0, 1), repeat=3):
                    if not big and (len(pattern[0]) > 1 or seeds == [0]) and \
                            (given, label, show) != (0, 1, 0):
                        continue
                    out.append(['rb', 'purity', pattern, seeds, form, p, given, label, show])
    lists = [[[0, 1]], [[0, 1, 2]], [[3, 1], [3, 1, 0]], [[2], [2, 0], [2, 0, 11]]]
    for ls, ntrials, given, show, title in itertools.product(
            lists, (1, 2, 4), (0, 1), (0, 1), ('default', 'own', 'none')):
        out.append(['qv', ls, ntrials, given, show, title])
    for ls, ntrials in itertools.product(lists, (1, 2, 4)):
        for depth in [len(q) for q in ls]:
            for given in (0, 1):
                out.append(['qvacc', ls, ntrials, depth, given])
                for trial in range(ntrials):
                    out.append(['qvtrial', ls, ntrials, depth, trial, [], given])
    for size in (1, 2, 3):
        for missing in itertools.combinations(range(4), size):
            out.append(['qvtrial', [[0, 1]], 2, 2, 1, list(missing), size % 2])
    for size in range(1, 8 if big else 3):
        for missing in itertools.combinations(range(8), size):
            out.append(['qvtrial', [[0, 1, 2]], 1, 3, 0, list(missing), 0])
    for kind, n in itertools.product(('complete', 'tensored', 'ctmp'), (1, 2, 3)):
        choices = [None] + [list(q) for q in qsim.ordered_subsets(range(n), range(1, n + 1))]
        for qubits, which, given in itertools.product(choices, ('assignment', 'mitigation'), (0, 1)):
            out.append(['matrix', kind, n, qubits, which, given])
    for sizes, orders in (([1], [[0, 1]]), ([1], [[1, 0]]), ([2], [[0, 1, 2, 3]]),
                          ([2], [[2, 0, 3, 1]]), ([1, 1], [[0, 1], [1, 0]]),
                          ([2, 1], [[0, 1, 2, 3], [0, 1]]), ([1, 2], [[0, 1], [3, 1, 0, 2]]),
                          ([1, 1, 1], [[0, 1], [1, 0], [0, 1]])):
        for index, given, show in itertools.product(range(len(sizes)), (0, 1), (0, 1)):
            out.append(['cal', sizes, orders, index, given, show])
    for kind in ('t1', 't2', 't2star', 'zz', 'amp', 'ang', 'ampcx', 'angcx', 'rabi', 'drag'):
        for qubits, form in itertools.product([[0], [3, 1], [5, 0, 12]], ('list', 'array')):
            if kind == 'zz' and len(qubits) == 3:
                continue
            for k in range(len(qubits)):
                for ser in (['0', '1', 'both'] if kind == 'zz' else ['default', '0']):
                    for given, show in itertools.product((0, 1), (0, 1)):
                        if not big and (form, ser) == ('array', 'default') and show:
                            continue
                        out.append(['char', kind, qubits, k, ser, form, given, show])
    for mask in qsim.ordered_subsets(range(3), (1, 2, 3)):
        mask = list(mask)
        shown = [None] + [list(q) for q in qsim.ordered_subsets(mask, range(1, len(mask) + 1))]
        out.append(['discreject', 3, mask])
        for split, color in itertools.product((0, 1, 2, 3), (None, 'g')):
            out.append(['discnew', 3, mask, split, color])
        for kind in ('sklearn', 'linear', 'quadratic'):
            for sel in shown:
                for nstates, flag, data, title, axs in itertools.product(
                        (2, 3), (0, 1), (0, 1), (0, 1), (0, 1, 2)):
                    if not big and (kind != 'sklearn' and (not data or nstates == 3 or axs == 2)):
                        continue
                    if not big and len(mask) == 3 and (not title or nstates == 3 or axs == 0):
                        continue
                    if not big and (not title and (axs != 1 or nstates == 3) or axs == 2 and flag
                                    or not data and flag):
                        continue
                    if not big and kind == 'linear' and len(mask) > 2:
                        continue
                    if kind == 'quadratic' and len(mask) > 1:
                        continue
                    out.append(['disc', kind, 3, mask, nstates, sel, bool(flag), bool(data),
                                bool(title), axs])
    return out


def run(case, ctx):
    """One case."""
    ctx.kind(case[0])
    ctx.state(case)
    try:
        globals()['run_' + case[0]](case, ctx)
    finally:
        plt.close('all')
