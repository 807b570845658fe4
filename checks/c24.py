"""C24: discrimination of level-1 (IQ) data."""
import copy
import itertools

import numpy as np
from qiskit import QiskitError
from qiskit.pulse import PulseError, Schedule
from qiskit.ignis.measurement.discriminator.iq_discriminators import (
    LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator)
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter

from vlib import qsim

ID = 'C24'
BOUNDS = {
    'quick': 'every ordered mask of 1..3 qubits; every order of calibration and other experiments '
             '(<= 4) in one Result or split over a list, averaged and single-shot, with and without '
             'standardisation, schedules by name, as objects, subset or default, labels given or '
             'default; every history of <= 3 add_data calls (with/without refit, new and repeated '
             'schedules); filters: every sequence of <= 3 experiments of 5 types (different shot '
             'numbers, averaged, same name, other level), all labels of length <= 2 in base <= 3, '
             'single Results and lists; linear and quadratic discriminators on every placement of '
             'well-separated clusters at scales 1e-9..1e7, learnt at once or in two steps; '
             '13 calibration schedules and 12 qubits',
    'thorough': 'histories of <= 4 add_data calls, sequences of <= 4 experiments',
}
ASSUMPTIONS = ['a schedule found in several Results of a list means the first of them (documented)',
               'the order of the training data is free']


class Recorder:
    """A classifier that records what it is trained on and labels by exact table or by value."""

    def __init__(self, labels=('0', '1')):
        self.fits = []
        self.predicted = []
        self.labels = list(labels)

    def fit(self, xdata, ydata):
        """record"""
        self.fits.append(([tuple(float(v) for v in row) for row in xdata],
                          [str(v) for v in ydata]))

    def predict(self, xdata):
        """label by value of the first feature (the experiment's code, see points)"""
        out = []
        for row in xdata:
            self.predicted.append(tuple(float(v) for v in row))
            out.append(self.labels[int(round(row[0])) % len(self.labels)])
        return np.array(out)


def points(code, shots, slots, avg):
    """Distinct complex numbers, in (shots, slots) or (slots,)."""
    arr = np.array([[complex(100 * code + 7 * s + q, -(100 * code + 7 * s + q) ** 2 / 50 - 3 * q)
                     for q in range(slots)] for s in range(shots)])
    return arr[0] if avg else arr


def rows(mem, mask):
    """Features of a memory: I of the masked qubits, then Q."""
    mem = np.atleast_2d(mem)
    return [tuple([float(r[q].real) for q in mask] + [float(r[q].imag) for q in mask]) for r in mem]


def pairs(fit):
    """Training set as a sorted list of pairs."""
    ctxlen = (len(fit[0]), len(fit[1]))
    assert ctxlen[0] == ctxlen[1], 'features and labels differ in number: %s %s' % ctxlen
    return sorted(zip(*fit))


def affine(ctx, clause, raw, got):
    """got is raw after a positive affine map of each column."""
    raw, got = np.array(raw), np.array(got)
    ctx.equal(clause + '-shape', list(got.shape), list(raw.shape))
    if not raw.size:
        return
    for col in range(raw.shape[1]):
        x, z = raw[:, col], got[:, col]
        i, j = int(np.argmin(x)), int(np.argmax(x))
        if x[i] == x[j]:
            ctx.close(clause, list(z), [z[0]] * len(z), 1e-9, 'constant column')
            continue
        ctx.check(clause + '-order', z[j] > z[i], 'column reversed')
        want = z[i] + (x - x[i]) * (z[j] - z[i]) / (x[j] - x[i])
        ctx.close(clause, list(z), list(want), 1e-6, 'column %d' % col)


def cases(tier):
    """All cases, simplest first."""
    deep = tier == 'thorough'
    # names, and how they are split into results
    sets = [['cal_0', 'cal_1'], ['cal_0', 'x', 'cal_1'], ['cal_00', 'cal_11', 'cal_01'],
            ['cal_0', 'cal_1', 'cal_a', 'mycal_2']]
    for slots in (1, 2, 3):
        for mask in qsim.ordered_subsets(range(slots), range(1, slots + 1)):
            for avg, std in itertools.product((0, 1), (0, 1)):
                yield ['train', slots, list(mask), avg, std, ['cal_0', 'x', 'cal_1'], [3], 'default',
                       0]
    for names in sets:
        for order in itertools.permutations(names):
            for split in splits(len(names)):
                for how in ('default', 'names', 'objects', 'reversed', 'subset', 'all'):
                    for labels in (0, 1):
                        for avg in (0, 1):
                            yield ['train', 2, [1, 0], avg, labels, list(order), split, how, labels]
    many = ['cal_%d' % i for i in range(12)] + ['x', 'cal_01']
    for order in (many, many[::-1], many[5:] + many[:5]):
        for split in ([14], [1] * 14, [3, 11], [12, 2]):
            for how in ('default', 'names', 'objects', 'reversed', 'subset'):
                for labels, avg in itertools.product((0, 1), repeat=2):
                    yield ['train', 12, [10, 2, 11, 0], avg, labels, list(order), split, how,
                           labels]
    yield from ([['reject', k, std, n] for k in ('states', 'few', 'missing', 'type') for std in (0, 1)
                 for n in (0, 1, 2)])
    starts = [[], ['a'], ['a', 'b']]
    ops = [(x, refit) for x in ('a', 'b', 'c', 'avg', 'explicit', 'objects') for refit in (1, 0)]
    depth = 3 if deep else 2
    for start in starts:
        for avg_start in (0, 1):
            for std in (0, 1):
                for k in range(0, depth + 1):
                    for hist in itertools.product(ops, repeat=k):
                        yield ['hist', start, avg_start, std, [list(h) for h in hist]]
    if not deep:
        for start in starts:
            for hist in itertools.product([o for o in ops if o[0] in 'abc'], repeat=3):
                yield ['hist', start, 0, 0, [list(h) for h in hist]]
    for order in itertools.permutations(range(3)):
        for avg in (0, 1):
            for sched in (['cal_0', 'cal_1'], ['cal_1', 'cal_0'], ['cal_1']):
                yield ['first', list(order), avg, sched]
    types = ['s2', 's3', 'avg', 'same', 'level2']
    for k in range(1, (4 if deep else 3) + 1):
        for seq in itertools.product(types, repeat=k):
            if all(t == 'level2' for t in seq):
                continue
            for std in (0, 1):
                for wrap in (0, 1):
                    yield ['filter', list(seq), std, wrap]
    alphabet = [''.join(b) for n in (1, 2) for b in itertools.product('012', repeat=n)]
    for i, j in itertools.permutations(range(len(alphabet)), 2):
        if len(alphabet[i]) == len(alphabet[j]):
            for base in (0, 3, 5):
                yield ['labels', [alphabet[i], alphabet[j]], base]
    for n in (1, 2):
        states = [''.join(b) for b in itertools.product('012', repeat=1)] if n == 1 \
            else qsim.bitstrings(2)
        for perm in itertools.permutations(range(4), len(states)):
            for kind in ('linear', 'quadratic'):
                for std in (0, 1):
                    yield ['real', n, states, list(perm), kind, std]
                    yield ['real', n, states, list(perm), kind, std, 1., 1]
                    for unit in (1e-9, 1e7):
                        if unit < 1 and kind == 'quadratic' and not std:
                            continue        # below scikit-learn's tolerance
                        yield ['real', n, states, list(perm), kind, std, unit, 0]


def splits(total):
    """Compositions of total."""
    if total == 0:
        return [[]]
    return [[k] + rest for k in range(1, total + 1) for rest in splits(total - k)]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    ctx.step()
    globals()['run_' + case[0]](case, ctx)
    ctx.outcome(case[0], case[-1])


def check_training(ctx, rec, want, std, clause='training-set', fresh=True):
    """The last fit used exactly the wanted (features, label) pairs."""
    want = sorted(want)
    got = pairs(rec.fits[-1])
    ctx.equal(clause + '-labels', [p[1] for p in sorted(got, key=str)].__len__(), len(want))
    if not std:
        ctx.equal(clause, got, want)
        return
    # standardised: a positive affine map per column keeps the order of the (distinct) rows
    affine(ctx, clause + '-scaled', [w[0] for w in want], [g[0] for g in got])
    ctx.equal(clause + '-scaled-labels', [g[1] for g in got], [w[1] for w in want])
    if fresh and len(want) > 1:
        cols = np.array([g[0] for g in got])
        raw = np.array([w[0] for w in want])
        for col in range(cols.shape[1]):
            ctx.close(clause + '-mean', float(np.mean(cols[:, col])), 0., 1e-7, 'mean')
            if np.ptp(raw[:, col]) > 0:
                ctx.close(clause + '-spread', float(np.std(cols[:, col])), 1., 1e-7, 'spread')


def run_train(case, ctx):
    """Training sets at construction."""
    _, slots, mask, avg, std, names, split, how, labels = case
    mems = {n: points(i + 1, 2 + i % 2, slots, avg) for i, n in enumerate(names)}
    results, pos = [], 0
    for size in split:
        results.append(qsim.make_iq_result([(n, mems[n], 2) for n in names[pos:pos + size]]))
        pos += size
    cal = [n for n in names if n.startswith('cal_') and n[4:].isdigit()]
    sched = {'default': None, 'names': list(cal), 'objects': [Schedule(name=n) for n in cal],
             'reversed': list(reversed(cal)), 'subset': list(cal[:-1]), 'all': list(names)}[how]
    used = {'subset': cal[:-1], 'all': names}.get(how, cal)
    order = list(reversed(cal)) if how == 'reversed' else used
    state = {n: n.replace('cal_', '') for n in used}
    expected = None
    if labels:
        expected = ['2' + n[5:] if n[4:5] == '0' else n[4:] or '1' for n in order]
        state = dict(zip(order, expected))
    given = list(expected) if expected else None
    rec = Recorder()
    before = copy.deepcopy([r.to_dict() for r in results])
    fitter = SklearnIQDiscriminator(rec, results if len(results) > 1 else results[0], mask, expected,
                                    bool(std), sched)
    ctx.equal('inputs-kept', [r.to_dict() for r in results], before)
    ctx.equal('inputs-kept-states', expected, given)
    check_training(ctx, rec, [(r, state[n]) for n in used for r in rows(mems[n], mask)], std)
    ctx.equal('expected-states', dict(fitter.expected_states), state)
    ctx.check('fitted', fitter.fitted is True, fitter.fitted)
    ctx.equal('schedules', sorted(getattr(s, 'name', s) for s in fitter.schedules), sorted(used))
    # the data as the fitter would feed it to the classifier at any later time
    rec.predicted.clear()
    last = qsim.make_iq_result([(n, mems[n], 2) for n in used])
    fitter.discriminate(fitter.get_xdata(last, 2))
    ctx.equal('same-scale', sorted(rec.predicted), sorted(rec.fits[-1][0]))
    ctx.equal('ydata-length', len(fitter.get_ydata(last, 0)), len(fitter.get_xdata(last, 0)))
    other = [n for n in names if n not in cal]
    for kind, want in ((0, cal), (1, other), (2, names)):
        if not want:
            continue
        res = qsim.make_iq_result([(n, mems[n], 2) for n in names])
        rec.predicted.clear()
        got = fitter.get_xdata(res, kind)
        raw = [r for n in want for r in rows(mems[n], mask)]
        if std:
            affine(ctx, 'selection-scaled', raw, got)
        else:
            ctx.equal('selection', [tuple(map(float, g)) for g in got], raw)
    for n in names:
        ctx.equal('calibration-name', fitter.is_calibration(n), n in cal)


def block(letter, avg):
    """A calibration result used in the histories: names, labels and memories."""
    if letter == 'a':
        return [('cal_0', '0', points(1, 2, 2, avg)), ('cal_1', '1', points(2, 3, 2, avg))]
    if letter == 'b':
        return [('cal_2', '2', points(3, 3, 2, avg))]
    if letter == 'c':
        return [('cal_0', '2', points(4, 2, 2, avg)), ('cal_3', '1', points(5, 1, 2, 0))]
    if letter == 'avg':
        return [('cal_4', '0', points(6, 2, 2, 1)), ('cal_1', '1', points(7, 2, 2, 1))]
    return [('cal_5', '1', points(8, 2, 2, 0)), ('cal_6', '2', points(9, 2, 2, 0))]


def run_hist(case, ctx):
    """Every history of added data."""
    _, start, avg, std, hist = case
    mask = [1, 0]
    rec = Recorder()
    want = []
    first = []
    for letter in start:
        blk = block(letter, avg)
        first.append(qsim.make_iq_result([(n, m, 2) for n, _, m in blk]))
        want += [(r, s) for _, s, m in blk for r in rows(m, mask)]
    names = [n for letter in start for n, _, _ in block(letter, avg)]
    states = [s for letter in start for _, s, _ in block(letter, avg)]
    kept = list(names)
    fitter = SklearnIQDiscriminator(rec, first, mask, list(states), bool(std), names)
    ctx.equal('fits', len(rec.fits), 1 if start else 0)
    scaled_on = len(want)
    if start:
        check_training(ctx, rec, want, std)
    nfits = len(rec.fits)
    for op, refit in hist:
        blk = block(op, avg)
        extra = [('cal_9', points(20, 2, 2, 0), 2), ('y', points(21, 2, 2, 0), 2)]
        explicit = op in ('explicit', 'objects')
        exps = [(n, m, 2) for n, _, m in blk]
        if explicit:
            exps = extra[:1] + exps + extra[1:]
        result = qsim.make_iq_result(exps)
        sched = None
        if explicit:
            sched = [n for n, _, _ in blk]
            if op == 'objects':
                sched = [Schedule(name=n) for n in sched]
        fitter.add_data(result, [s for _, s, _ in blk], bool(refit), sched)
        if not want:
            scaled_on = sum(len(rows(m, mask)) for _, _, m in blk)
        want += [(r, s) for _, s, m in blk for r in rows(m, mask)]
        ctx.equal('refit', len(rec.fits) > nfits, bool(refit))
        if refit:
            check_training(ctx, rec, want, std, 'training-history', fresh=scaled_on == len(want))
        nfits = len(rec.fits)
    ctx.equal('schedules-kept', names, kept)
    if want:
        fitter.fit()
        check_training(ctx, rec, want, std, 'training-history', fresh=scaled_on == len(want))
        ctx.check('fitted', fitter.fitted is True, fitter.fitted)
        states = {n: s for letter in start for n, s, _ in block(letter, avg)}
        for op, _ in hist:
            states.update({n: s for n, s, _ in block(op, avg)})
        ctx.equal('expected-states', dict(fitter.expected_states), states)
        # the data the discriminator sees later is on the scale it was trained on
        rec.predicted.clear()
        every = [block(letter, avg) for letter in start] + [block(op, avg) for op, _ in hist]
        for blk in every:
            fitter.discriminate(fitter.get_xdata(qsim.make_iq_result([(n, m, 2) for n, _, m in blk]),
                                                 2))
        ctx.equal('same-scale', sorted(rec.predicted), sorted(rec.fits[-1][0]))
    else:
        ctx.check('fitted', not fitter.fitted, fitter.fitted)


def run_reject(case, ctx):
    """Rejected data leaves the discriminator as it was."""
    _, what, std, nadd = case
    mask = [0]
    rec = Recorder()
    blk = block('a', 0)
    fitter = SklearnIQDiscriminator(rec, qsim.make_iq_result([(n, m, 2) for n, _, m in blk]), mask,
                                    ['0', '1'], bool(std))
    want = [(r, s) for _, s, m in blk for r in rows(m, mask)]
    for _ in range(nadd):
        blk = block('b', 0)
        fitter.add_data(qsim.make_iq_result([(n, m, 2) for n, _, m in blk]), ['2'], False)
        want += [(r, s) for _, s, m in blk for r in rows(m, mask)]
    bad = qsim.make_iq_result([(n, m, 2) for n, _, m in block('c', 0)])
    if what == 'states':
        ctx.raises('reject', QiskitError, lambda: fitter.add_data(bad, ['0', '1', '1'], True), what)
    elif what == 'few':
        ctx.raises('reject', QiskitError, lambda: fitter.add_data(bad, ['0'], True), what)
    elif what == 'missing':
        ctx.raises('reject', QiskitError,
                   lambda: fitter.get_xdata([bad, bad], 0, ['cal_0', 'nowhere']), what)
        ctx.raises('reject', QiskitError,
                   lambda: SklearnIQDiscriminator(Recorder(), bad, mask, ['0', '1', '2'], bool(std),
                                                  ['cal_0', 'cal_3']), what)
        ctx.raises('reject', QiskitError,
                   lambda: SklearnIQDiscriminator(object(), bad, mask, ['0', '1'], bool(std)), what)
        ctx.check('pulse-error', issubclass(PulseError, QiskitError), 'class')
    else:
        ctx.raises('reject', QiskitError, lambda: fitter.get_xdata(bad, 3), what)
        ctx.raises('reject', QiskitError, lambda: fitter.get_xdata(bad, -1), what)
        flt = {'cal_0': '0', 'cal_1': 'a'}
        ctx.raises('reject', QiskitError, lambda: DiscriminationFilter.get_base(flt), what)
    fitter.fit()
    check_training(ctx, rec, want, std, 'after-reject', fresh=nadd == 0)


def run_first(case, ctx):
    """A schedule found in several results means the first."""
    _, order, avg, sched = case
    mask = [0, 1]
    blocks = [[('cal_0', points(1, 2, 2, avg)), ('cal_1', points(2, 2, 2, avg))],
              [('cal_1', points(3, 3, 2, avg))],
              [('x', points(4, 2, 2, avg)), ('cal_0', points(5, 4, 2, avg))]]
    blocks = [blocks[i] for i in order]
    results = [qsim.make_iq_result([(n, m, 2) for n, m in blk]) for blk in blocks]
    rec = Recorder()
    SklearnIQDiscriminator(rec, results, mask, None, False, list(sched))
    want = []
    for name in sched:
        mem = next(m for blk in blocks for n, m in blk if n == name)
        want += [(r, name[4:]) for r in rows(mem, mask)]
    check_training(ctx, rec, want, 0, 'first-result')


def level1(result):
    """The experiments of a filtered result that came from level-1 data."""
    return [r for r in result.results if not r.header.name.startswith('counts')]


def run_filter(case, ctx):
    """Every sequence of experiments."""
    _, seq, std, wrap = case
    mask = [1]
    labels = ['0', '1', '2']
    train = {'cal_0': points(1, 2, 2, 0), 'cal_1': points(2, 2, 2, 0), 'cal_2': points(4, 3, 2, 0)}

    class Table(Recorder):
        """labels the value the shot had before scaling"""
        back = None

        def predict(self, xdata):
            """exact: find the raw value by the affine map"""
            return np.array([labels[int(round(self.back(row))) % 3] for row in xdata])
    rec = Table()
    fitter = SklearnIQDiscriminator(rec, qsim.make_iq_result([(n, m, 2) for n, m in train.items()]),
                                    mask, None, bool(std))
    raw = sorted(r for m in train.values() for r in rows(m, mask))
    got = sorted(rec.fits[-1][0])
    scale = (raw[-1][0] - raw[0][0]) / (got[-1][0] - got[0][0])
    rec.back = lambda row: raw[0][0] + (row[0] - got[0][0]) * scale
    exps, mems = [], []
    for i, kind in enumerate(seq):
        shots = {'s2': 2, 's3': 3, 'avg': 5, 'same': 4, 'level2': 0}[kind]
        name = 'same' if kind == 'same' else '%s_%d' % (kind, i)
        if kind == 'level2':
            continue
        mem = points(6 + i, shots, 2, kind == 'avg')
        exps.append((name, mem, shots))
        mems.append(mem)
    result = qsim.make_iq_result(exps)
    for i, kind in enumerate(seq):
        if kind == 'level2':
            other = qsim.make_result([('counts_%d' % i, {'00': 3}, {'width': 2, 'shots': 3})])
            exp = other.results[0]
            exp.meas_level = 2
            result.results.insert(i, exp)
    before = result.to_dict()
    flt = DiscriminationFilter(fitter)
    if wrap:
        new = flt.apply([result, result])
        ctx.equal('list', len(new), 2)
        news = new
    else:
        news = [flt.apply(result)]
    ctx.equal('input-kept', result.to_dict(), before)
    for new in news:
        out = level1(new)
        ctx.equal('experiments', [r.header.name for r in out], [e[0] for e in exps])
        for exp, mem, res in zip(exps, mems, out):
            want = [labels[int(round(r[0])) % 3] for r in rows(mem, mask)]
            ctx.equal('shots-in-order', [str(v) for v in res.data.memory], want)
            counts = {}
            for lab in want:
                counts[hex(int(lab, 3))] = counts.get(hex(int(lab, 3)), 0) + 1
            data = res.data.counts
            data = data if isinstance(data, dict) else data.to_dict()
            ctx.equal('counts', data, counts)
            ctx.equal('level', res.meas_level, 2)
            ctx.equal('number-of-shots', res.shots, exp[2])


def run_labels(case, ctx):
    """Counts in every base."""
    _, labels, base = case
    rec = Recorder(labels)
    mems = [points(1, 2, 1, 0), points(2, 2, 1, 0)]
    cal = qsim.make_iq_result([('cal_0', mems[0], 2), ('cal_1', mems[1], 2)])
    fitter = SklearnIQDiscriminator(rec, cal, [0], list(labels))
    flt = DiscriminationFilter(fitter, base) if base else DiscriminationFilter(fitter)
    digits = max(int(c) for lab in labels for c in lab) + 1
    ctx.equal('base', flt.base, base or digits)
    ctx.equal('get-base', DiscriminationFilter.get_base(fitter.expected_states), digits)
    if flt.base < 2:
        return
    mem = points(3, 6, 1, 0)
    new = flt.apply(qsim.make_iq_result([('x', mem, 6)]))
    want = [labels[int(round(r[0])) % 2] for r in rows(mem, [0])]
    counts = {}
    for lab in want:
        key = hex(int(lab, base or digits))
        counts[key] = counts.get(key, 0) + 1
    ctx.equal('counts-in-base', dict(new.data(0)['counts']), counts)
    ctx.equal('memory', [str(v) for v in new.results[0].data.memory], want)


def run_real(case, ctx):
    """Linear and quadratic discriminators on separated clusters."""
    _, nqubits, states, perm, kind, std = case[:6]
    unit, late = case[6:] if len(case) > 6 else (1., 0)
    centres = [complex(10, 10), complex(-10, 10), complex(-10, -10), complex(10, -10)]
    jitter = [2, -1.5, 1.7j, -2j, 1 + 0.7j, -1.1 + 0.9j, 0.6 - 1.3j]

    def memory(index, rot):
        """IQ points of the cluster of a state."""
        point = centres[perm[index]]
        out = []
        for k in range(len(jitter)):
            shot = [point + jitter[(k + rot) % len(jitter)],
                    1j * point + jitter[(k * 3 + rot + 1) % len(jitter)] * (1.1 + 0.3j)]
            out.append(shot)
        return np.array(out) * unit
    mask = [0] if nqubits == 1 else [1, 0]
    cal = qsim.make_iq_result([('cal_' + s, memory(i, 0), 7) for i, s in enumerate(states)])
    maker = LinearIQDiscriminator if kind == 'linear' else QuadraticIQDiscriminator
    if late:
        # the discriminator learns the last states later
        parts = [qsim.make_iq_result([('cal_' + s, memory(i, 0), 7) for i, s in enumerate(states)
                                      if (i < 2) == (p == 0)]) for p in range(2)]
        fitter = maker(parts[0], mask, states[:2], bool(std))
        fitter.add_data(parts[1], states[2:])
    else:
        fitter = maker(cal, mask, standardize=bool(std))
    ctx.step()
    flt = DiscriminationFilter(fitter)
    res = qsim.make_iq_result([('x%d' % i, memory(i, 2), 7) for i in reversed(range(len(states)))])
    new = flt.apply(res)
    for pos, i in enumerate(reversed(range(len(states)))):
        ctx.equal('cluster-label', [str(v) for v in new.results[pos].data.memory], [states[i]] * 7)
        ctx.equal('cluster-counts', dict(new.data(pos)['counts']),
                  {hex(int(states[i], 3 if nqubits == 1 else 2)): 7})
