"""C03: tensored readout calibration and mitigation."""
import itertools

import numpy as np
from qiskit import QiskitError, QuantumRegister, ClassicalRegister
from qiskit.ignis.mitigation.measurement import (tensored_meas_cal, TensoredMeasFitter,
                                                 TensoredFilter, MeasurementFilter)

from vlib import qsim
from checks.c02 import optimum

ID = 'C03'
BOUNDS = {
    'quick': 'circuits: every ordered selection of 1..4 of 4 qubits x every cut into ordered groups '
             'x register forms; fitting: every cut of 1..4 qubits x label-order family with '
             'correlated noise tables; all permutations x cuts of the calibration results (<=4 '
             'units); filter: every cut of 1..4 bits, all basis vectors and 2-unit grids, '
             'pseudo-inverse, least squares (<=3 bits), dictionaries and Results',
    'thorough': 'as quick with 5 qubits, all pairs of group label orders, 5 result units and least '
                'squares on 4 bits',
}
ASSUMPTIONS = ['gate matrices of qiskit-terra', 'least-squares values compared within 0.5% of the '
               'shots', 'numpy.random is seeded']


def cuts(n):
    """All compositions of n (group sizes)."""
    for parts in qsim.compositions(range(n), n):
        yield [len(p) for p in parts]


def label_orders(size, big):
    labs = qsim.bitstrings(size)
    if size == 1:
        return [labs, labs[::-1]]
    out = [labs, labs[::-1], sorted(labs, key=lambda s: s[::-1]), labs[1:] + labs[:1]]
    if size > 2 and not big:
        out = [labs, sorted(labs, key=lambda s: s[::-1]), labs[3:] + labs[:3]]
    return out


def cases(tier):
    big = tier == 'thorough'
    for sel in qsim.ordered_subsets(range(4), (1, 2, 3, 4)):
        for sizes in cuts(len(sel)):
            forms = ('none', 'reg', 'int', 'lab') if len(sel) < 4 else ('none',)
            for form in forms:
                yield ['circ', list(sel), sizes, form]
    if big:
        for sel in itertools.permutations(range(5)):
            for sizes in cuts(5):
                yield ['circ', list(sel), sizes, 'none']
    for k in (1, 2, 3):
        yield ['circ_whole', k]
    yield ['reject']
    for n in range(1, 6 if big else 5):
        for sizes in cuts(n):
            lists = [label_orders(s, big) for s in sizes]
            combos = itertools.product(*lists) if n <= 2 or (big and n <= 3) else \
                [[lst[(i + g) % len(lst)] for g, lst in enumerate(lists)] for i in range(4)]
            for labs in combos:
                yield ['fit', sizes, [list(x) for x in labs], n % 2]
                if n <= 4:
                    yield ['filter', sizes, [list(x) for x in labs],
                           int(n <= 2 or (n == 3 and len(sizes) > 1) or (big and len(sizes) > 2))]
    for sizes in ([1] * 5, [2, 3], [3, 2], [1, 2, 2], [2, 1, 1, 1], [1] * 6, [3, 3], [2, 2, 2],
                  [1, 3, 2], [4, 1]):
        yield ['fit', sizes, [qsim.bitstrings(s)[::-1] for s in sizes], 0]
        yield ['fit', sizes, [label_orders(s, False)[i % 2] for i, s in enumerate(sizes)], 1]
        yield ['wide', sizes]
    for sel, sizes in (([10, 2], [1, 1]), ([12, 11, 3], [2, 1]), ([4, 0, 3, 1, 2], [2, 3]),
                       ([5, 4, 3, 2, 1, 0], [1, 3, 2]), ([0, 1, 2, 3, 4], [1] * 5)):
        yield ['circ', sel, sizes, 'none']
    for sizes in ([1, 1], [2, 1], [1, 2, 1]):
        units = 12
        for step in (1, 5, 7):
            perm = [(i * step) % units for i in range(units)]
            for how in ('ctor', 'objs', 'lazy'):
                yield ['hist', sizes, [[u] for u in perm], how]
                yield ['hist', sizes, [perm], how]
    for sizes, units in (([1, 1], 2), ([1, 2], 4), ([2, 1], 4), ([2, 2], 4)):
        for perm in itertools.permutations(range(units)):
            for parts in qsim.compositions(perm, 4):
                for how in ('ctor', 'objs', 'lazy'):
                    yield ['hist', sizes, parts, how]
    if big:
        for perm in itertools.permutations(range(5)):
            for parts in qsim.compositions(perm, 5):
                for how in ('ctor', 'lazy'):
                    yield ['hist', [2, 1, 1], parts, how]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def split(sel, sizes):
    out, pos = [], 0
    for s in sizes:
        out.append(list(sel[pos:pos + s]))
        pos += s
    return out


def sub(value, offset, size):
    return (value >> offset) & ((1 << size) - 1)


def offsets(sizes):
    return [sum(sizes[:i]) for i in range(len(sizes))]


def run_circ(case, ctx):
    _, sel, sizes, form = case
    n = len(sel)
    pattern = split(sel, sizes)
    kw, nreg, lab = {}, max(sel) + 1, ''
    if form == 'reg':
        kw, nreg = dict(qr=QuantumRegister(5, 'qq'), cr=ClassicalRegister(n, 'cc')), 5
    elif form == 'int':
        kw, nreg = dict(qr=6, cr=n), 6
    elif form == 'lab':
        lab = 'L'
        kw = dict(circlabel=lab)
    circs, back = tensored_meas_cal([list(g) for g in pattern], **kw)
    ctx.step()
    ctx.equal('pattern', [list(g) for g in back], pattern)
    seen = [set() for _ in sizes]
    for circ in circs:
        ctx.check('name', circ.name.startswith(lab + 'cal_'), circ.name)
        label = circ.name[len(lab + 'cal_'):]
        ctx.equal('label_width', len(label), n)
        ctx.equal('nqubits', circ.num_qubits, nreg)
        _, meas = qsim.strip_measure(circ)
        ctx.equal('measmap', meas, {k: q for k, q in enumerate(sel)})
        ctx.close('outcome', qsim.dist(circ).get(label, 0), 1.0)
        touched = {q for inst, qs, _ in qsim.instructions(circ) if inst.name != 'barrier'
                   for q in qs}
        ctx.check('others', touched <= set(sel), (touched, sel))
        for g, (off, size) in enumerate(zip(offsets(sizes), sizes)):
            seen[g].add(sub(int(label, 2), off, size))
        ctx.outcome(label, sel, sizes)
    for g, size in enumerate(sizes):
        ctx.equal('all_group_states', sorted(seen[g]), list(range(2 ** size)))


def run_circ_whole(case, ctx):
    k = case[1]
    for qr in (k, QuantumRegister(k, 'r')):
        circs, back = tensored_meas_cal(qr=qr)
        ctx.step()
        ctx.equal('pattern', [list(g) for g in back], [list(range(k))])
        ctx.equal('names', sorted(c.name for c in circs),
                  ['cal_' + s for s in qsim.bitstrings(k)])
        for circ in circs:
            ctx.close('outcome', qsim.dist(circ).get(circ.name[4:], 0), 1.0)


def run_reject(case, ctx):
    ctx.raises('reject', QiskitError, tensored_meas_cal, 'nothing')
    for bad in ([[0, 0]], [[0], [0]], [[0, 1], [2, 1]]):
        ctx.raises('reject', QiskitError, lambda b=bad: tensored_meas_cal(b), str(bad))
    ctx.raises('reject', ValueError,
               lambda: TensoredMeasFitter(None, [[0], [1]], [['0', '1']]), 'labels')
    filt = TensoredFilter([np.eye(2)], [['0', '1']])
    ctx.raises('reject', QiskitError, lambda: filt.apply([1, 2]), 'list')
    ctx.raises('reject', QiskitError, lambda: filt.apply({'0': 3}, method='nope'), 'method')
    ctx.raises('reject', QiskitError,
               lambda: TensoredMeasFitter(None, [[0]]).readout_fidelity(), 'no data')


def table(n, fam, denom):
    """Correlated confusion counts [read, prepared]."""
    return qsim.rational_stochastic(2 ** n, fam + 1, denom)


def prepared(sizes):
    """The states which the calibration circuits of this pattern prepare."""
    pattern = split(list(range(sum(sizes))), sizes)
    circs, _ = tensored_meas_cal(pattern)
    return [int(c.name[4:], 2) for c in circs]


def reference(sizes, labels, data):
    """Group matrices from [(prepared value, counts by value)]."""
    out = []
    for off, size, labs in zip(offsets(sizes), sizes, labels):
        mat = np.zeros((2 ** size, 2 ** size))
        for prep, counts in data:
            for read, cnt in counts.items():
                mat[sub(read, off, size), sub(prep, off, size)] += cnt
        tot = mat.sum(axis=0)
        mat = np.divide(mat, tot, out=np.zeros_like(mat), where=tot != 0)
        idx = [int(x, 2) for x in labs]
        out.append(mat[np.ix_(idx, idx)])
    return out


def experiments(data, n):
    return [('cal_' + format(prep, '0%db' % n),
             {format(r, '0%db' % n): c for r, c in counts.items()}, dict(width=n))
            for prep, counts in data]


def run_fit(case, ctx):
    _, sizes, labels, fam = case
    n = sum(sizes)
    tab = table(n, fam, 5000)
    states = prepared(sizes)
    data = [(p, {r: int(tab[r, p]) * (1 + i % 2) for r in range(2 ** n) if tab[r, p]})
            for i, p in enumerate(states)]
    pattern = split([3 * q + 1 for q in range(n)], sizes)
    want = reference(sizes, labels, data)
    exps = experiments(data, n) + [('other', {'0' * n: 7}, dict(width=n))]
    default = [qsim.bitstrings(s) for s in sizes]
    for labs in [labels] + ([None] if labels == default else []):
        fitter = TensoredMeasFitter(qsim.make_result(exps), pattern, labs)
        ctx.step()
        ctx.equal('groups', len(fitter.cal_matrices), len(sizes))
        ctx.equal('nqubits', fitter.nqubits, n)
        for g in range(len(sizes)):
            ctx.close('group_matrix', fitter.cal_matrices[g], want[g], 1e-12)
            ctx.close('filter_matrix', fitter.filter.cal_matrices[g], want[g], 1e-12)
            ctx.close('fidelity', fitter.readout_fidelity(g), np.mean(np.diag(want[g])), 1e-12)
            grp = [labels[g][:2]] + [[x] for x in labels[g][2:3]]
            exp = np.mean([np.mean([sum(want[g][labels[g].index(i)][labels[g].index(j)]
                                        for i in sub_) for j in sub_]) for sub_ in grp])
            ctx.close('group_fidelity', fitter.readout_fidelity(g, grp), exp, 1e-12)
        ctx.outcome(fitter.cal_matrices)
    # single shots next to many
    rare = [(p, {r: [1, 100000, 2, 1][(r + p + fam) % 4] for r in range(2 ** n)
                 if (r * 3 + p) % 5 < 3 or r == p}) for p in states]
    fitter = TensoredMeasFitter(qsim.make_result(experiments(rare, n)), pattern, labels)
    ctx.step()
    for g, mat in enumerate(reference(sizes, labels, rare)):
        ctx.close('rare', fitter.cal_matrices[g], mat, 1e-12)
    # labelled circuits
    exps = [('Z' + name, c, e) for name, c, e in experiments(data, n)]
    other = [('Y' + name, {k[::-1]: v for k, v in c.items()}, e)
             for name, c, e in experiments(data, n)]
    fitter = TensoredMeasFitter(qsim.make_result(exps + other), pattern, labels, circlabel='Z')
    ctx.step()
    for g in range(len(sizes)):
        ctx.close('circlabel', fitter.cal_matrices[g], want[g], 1e-12)


def run_hist(case, ctx):
    _, sizes, parts, how = case
    n = sum(sizes)
    states = prepared(sizes)
    labels = [qsim.bitstrings(s)[::-1] for s in sizes]
    tabs = [table(n, i % 3, 2000 + 1000 * i) for i in range(12)]

    def unit(u):
        prep = states[u % len(states)]
        tab = tabs[u // len(states)]
        return prep, {r: int(tab[r, prep]) for r in range(2 ** n) if tab[r, prep]}

    def res(units, joined):
        if joined:
            return qsim.make_result(experiments([unit(u) for u in units], n))
        out = [qsim.make_result(experiments([unit(u)], n)) for u in units]
        return out[0] if len(out) == 1 else out
    done = []
    rest = parts
    if how == 'ctor':
        fitter = TensoredMeasFitter(res(parts[0], True), split(list(range(n)), sizes), labels)
        done += [unit(u) for u in parts[0]]
        rest = parts[1:]
    else:
        fitter = TensoredMeasFitter(None, split(list(range(n)), sizes), labels)
    ctx.step()
    for i, part in enumerate(rest):
        lazy = how == 'lazy' and i < len(rest) - 1
        fitter.add_data(res(part, how != 'objs'), rebuild_cal_matrix=not lazy)
        done += [unit(u) for u in part]
        ctx.step()
        if not lazy:
            want = reference(sizes, labels, done)
            for g in range(len(sizes)):
                ctx.close('history', fitter.cal_matrices[g], want[g], 1e-12)
    want = reference(sizes, labels, done)
    for g in range(len(sizes)):
        ctx.close('history', fitter.cal_matrices[g], want[g], 1e-12)
    ctx.outcome(want)


def run_wide(case, ctx):
    """Many groups, many experiments, few and many shots."""
    sizes = case[1]
    n = sum(sizes)
    dim = 2 ** n
    mats = [np.roll(qsim.rational_stochastic(2 ** s, g + s, 60), g % 2, axis=0) / 60.
            for g, s in enumerate(sizes)]
    labels = [label_orders(s, False)[(g + 1) % 2] for g, s in enumerate(sizes)]
    given = []
    full = np.ones((1, 1))
    for mat, labs in zip(mats, labels):
        idx = [int(x, 2) for x in labs]
        given.append(mat[np.ix_(idx, idx)])
        full = np.kron(mat, full)
    inv = np.linalg.inv(full)
    filt = TensoredFilter(given, labels)
    keys = qsim.bitstrings(n)
    raws = []
    for i in range(12):
        t = np.array([(i * k + k * k) % (3 + i % 3) if (k + i) % 3 else 0 for k in range(dim)])
        t[(5 * i) % dim] += 1
        if i % 5 == 0:
            t = np.eye(dim, dtype=int)[(7 * i + 1) % dim]
        raws.append(t * (10 ** (i % 4 * 3)))
    exps = [('exp_%d' % i, {k: int(v) for k, v in zip(keys, raw) if v}, dict(width=n))
            for i, raw in enumerate(raws)]
    out = filt.apply(qsim.make_result(exps), method='pseudo_inverse')
    ctx.step()
    for i, raw in enumerate(raws):
        tol = 1e-8 * raw.sum() * max(1, np.abs(inv).max())
        got = out.get_counts(i)
        ctx.close('wide_result', np.array([got.get(k, 0) for k in keys]), inv @ raw, tol, i)
        if i < 5:
            got = filt.apply(exps[i][1], method='pseudo_inverse')
            ctx.step()
            ctx.close('wide_dict', np.array([got.get(k, 0) for k in keys]), inv @ raw, tol, i)
    ctx.outcome(inv @ raws[1])


def run_filter(case, ctx):
    _, sizes, labels, with_lsq = case
    n = sum(sizes)
    dim = 2 ** n
    den = 60
    imats = [qsim.rational_stochastic(2 ** s, g + s, den) if (g + n) % 3 else
             np.roll(qsim.rational_stochastic(2 ** s, g + s, den), 1, axis=0)
             for g, s in enumerate(sizes)]
    given = []
    for mat, labs in zip(imats, labels):
        idx = [int(x, 2) for x in labs]
        given.append((mat / den)[np.ix_(idx, idx)])
    full = np.ones((1, 1), dtype=int)
    for mat in imats:
        full = np.kron(mat, full)
    scale = den ** len(sizes)
    mat = full / scale
    inv = np.linalg.inv(mat)
    filt = TensoredFilter([g.copy() for g in given], [list(x) for x in labels])
    ctx.equal('nqubits', filt.nqubits, n)
    keys = qsim.bitstrings(n)
    pool = []
    for i in range(dim):
        t = np.zeros(dim, dtype=int)
        t[i] = 1
        pool.append((full @ t, scale * t))
        pool.append((100 * t, None))
    for i in range(dim):
        t = np.zeros(dim, dtype=int)
        t[i] += 1
        t[(i + 3) % dim] += 2
        pool.append((full @ t, scale * t))
    comp = MeasurementFilter(mat, keys)
    # labels and matrices which are set again replace the first ones
    again = TensoredFilter([np.eye(len(g)) for g in given], [list(x)[::-1] for x in labels])
    again.substate_labels_list = [list(x) for x in labels]
    again.cal_matrices = [g.copy() for g in given]

    def vec(counts):
        return np.array([counts.get(k, 0) for k in keys], dtype=float)
    for idx, (raw, truth) in enumerate(pool):
        ctx.state(sizes, labels, raw)
        tot = raw.sum()
        cdict = {k: int(v) for k, v in zip(keys, raw) if v}
        if idx % 2:
            cdict = dict(reversed(list(cdict.items())))
        save = list(cdict.items())
        got = filt.apply(cdict, method='pseudo_inverse')
        ctx.step()
        ctx.equal('input_unmodified', list(cdict.items()), save)
        ctx.close('pinv', vec(got), inv @ raw, 1e-8 * tot + 1e-6)
        quasi = raw - (np.arange(len(raw)) == idx % len(raw)) * 0.3 * tot
        got2 = filt.apply({k: float(v) for k, v in zip(keys, quasi) if v}, method='pseudo_inverse')
        ctx.close('pinv_quasi', vec(got2), inv @ quasi, 1e-8 * tot + 1e-6)
        ctx.close('same_as_complete', vec(got), vec(comp.apply(cdict, 'pseudo_inverse')),
                  1e-8 * tot + 1e-6)
        if truth is not None:
            ctx.close('inverse', vec(got), truth, 1e-8 * tot + 1e-6)
            ctx.close('set_again', vec(again.apply(cdict, method='pseudo_inverse')), truth,
                      1e-8 * tot + 1e-6)
        ctx.outcome(vec(got))
        if with_lsq and idx % (1 if n <= 2 else 4) == 0:
            np.random.seed(idx)
            # few shots: the optimiser works on the scale of the data
            small = {k: v * 200.0 / tot for k, v in cdict.items()}
            got = vec(filt.apply(small, method='least_squares')) * tot / 200.0
            ctx.step()
            ctx.check('lsq_nonneg', np.min(got) > -1e-6 * tot, got)
            ctx.close('lsq_total', got.sum(), tot, 1e-4 * tot)
            if truth is not None:
                ctx.close('lsq', got, truth, 0.005 * tot)
            elif n <= 2:
                val, _ = optimum(mat, np.asarray(raw, dtype=float))
                ctx.check('lsq_optimal', np.sum((raw - mat @ got) ** 2) <= val + 1e-4 * tot ** 2,
                          (got, val))
    for m in (1, 2, 3):
        for start in range(0, len(pool) - m, 5):
            blk = pool[start:start + m]
            res = qsim.make_result([('e%d' % (i // 2), {k: int(v) for k, v in zip(keys, raw) if v},
                                     dict(width=n)) for i, (raw, _) in enumerate(blk)])
            before = repr(res.to_dict())
            out = filt.apply(res, method='pseudo_inverse')
            ctx.step()
            ctx.check('input_unmodified', repr(res.to_dict()) == before, 'result')
            for i, (raw, _) in enumerate(blk):
                ctx.close('pinv_result', vec(out.get_counts(i)), inv @ raw,
                          1e-8 * raw.sum() + 1e-6)
    if with_lsq:
        raw, truth = pool[0]
        res = qsim.make_result([('e', {k: int(v) for k, v in zip(keys, raw) if v},
                                 dict(width=n))])
        for kw in (dict(method=None), {}):
            np.random.seed(5)
            got = vec(filt.apply(res, **kw).get_counts(0))
            ctx.step()
            ctx.close('lsq_result', got, truth, 0.005 * raw.sum())
    for g, mat_ in zip(filt.cal_matrices, given):
        ctx.close('matrix_unmodified', g, mat_, 1e-15)
