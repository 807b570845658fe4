"""C02: complete readout mitigation filter."""
import itertools

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import MeasurementFilter, CompleteMeasFitter

from vlib import qsim

ID = 'C02'
BOUNDS = {
    'quick': 'calibration matrices: 1-3 qubits, 4 families (diagonally dominant, permuted, nearly '
             'singular, permutation) x label orders (all for <=2 qubits) and all label subsets of '
             'size >=2 of 2 qubits plus 3 of 3 qubits; true/raw data: every integer composition of '
             '4/3/2 units on the labels of 1/2/3 qubits; both methods and the default; dictionary, '
             'list, M-fold list (M<=3) and Result (M<=3 experiments) forms; '
             'fractional weights and calibrations with singular values of a few thousandths',
    'thorough': 'as quick with compositions of 6/5/3 units and every 3-qubit label subset of size '
                '3, 5 and 6',
}
ASSUMPTIONS = ['least-squares values are compared with the exact active-set optimum within 0.5% of '
               'the shots', 'numpy.random is seeded (the filter draws its start point from it)']
D = 600


def label_sets(big):
    for order in itertools.permutations(qsim.bitstrings(1)):
        yield 1, list(order)
    for order in itertools.permutations(qsim.bitstrings(2)):
        yield 2, list(order)
    labs = qsim.bitstrings(3)
    for order in (labs, labs[::-1], labs[3:] + labs[:3], sorted(labs, key=lambda s: s[::-1])):
        yield 3, list(order)
    for size in (2, 3):
        for sub in itertools.permutations(qsim.bitstrings(2), size):
            yield 2, list(sub)
    if big:
        for size in (3, 5, 6):
            for sub in itertools.combinations(labs, size):
                yield 3, list(sub)
    else:
        for sub in (['000', '111', '010'], ['100', '001', '111', '010', '000'],
                    ['110', '011', '101', '000', '111', '001']):
            yield 3, sub


def matrix(dim, fam):
    if fam == 0:
        return qsim.rational_stochastic(dim, 1, D)
    if fam == 1:
        return np.roll(qsim.rational_stochastic(dim, 2, D), 1, axis=0)
    if fam == 2:
        # strong readout error, still invertible
        mat = np.full((dim, dim), D // (2 * dim))
        for j in range(dim):
            mat[(j * 1) % dim, j] += D - mat[:, j].sum()
        mat[0] += np.arange(dim)
        for j in range(dim):
            mat[dim - 1, j] -= j
        return mat
    mat = np.zeros((dim, dim), dtype=int)
    for j in range(dim):
        mat[(j + 1) % dim, j] = D
    return mat


def grid(dim, units):
    for cuts in itertools.combinations_with_replacement(range(dim), units):
        yield [cuts.count(i) for i in range(dim)]


def cases(tier):
    big = tier == 'thorough'
    for n, labels in label_sets(big):
        dim = len(labels)
        for fam in range(4):
            yield ['mit', n, labels, fam, {2: 6, 3: 5, 4: 5, 5: 3, 6: 3, 8: 3}[dim] if big else
                   {2: 4, 3: 3, 4: 3, 5: 2, 6: 2, 8: 2}[dim]]
    for n in (4, 5):
        for fam in range(4):
            yield ['wide', n, fam, 12]
    for n in (1, 2, 3):
        for fam in range(4):
            yield ['wide', n, fam, 25]
    for n in (1, 2, 3):
        for fam in range(5):
            yield ['weights', n, fam]
    yield ['reject']
    for n in (1, 2, 3):
        yield ['fitter', n]


def optimum(mat, raw):
    """Exact minimiser of |raw - mat x|^2 with x >= 0 and sum x = sum raw (active sets)."""
    dim = mat.shape[1]
    tot = raw.sum()
    best = None
    for r in range(1, dim + 1):
        for sup in itertools.combinations(range(dim), r):
            sub = mat[:, sup]
            kkt = np.zeros((r + 1, r + 1))
            kkt[:r, :r] = 2 * sub.T @ sub
            kkt[:r, r] = 1
            kkt[r, :r] = 1
            sol = np.linalg.lstsq(kkt, np.append(2 * sub.T @ raw, tot), rcond=None)[0][:r]
            if np.min(sol) < -1e-7 * (1 + tot) or abs(sol.sum() - tot) > 1e-6 * (1 + tot):
                continue
            x = np.zeros(dim)
            x[list(sup)] = sol
            val = np.sum((raw - mat @ x) ** 2)
            if best is None or val < best[0] - 1e-9:
                best = (val, x)
    return best


def lsq(ctx, clause, got, mat, raw, truth):
    """Least squares oracle."""
    tot = raw.sum()
    got = np.asarray(got, dtype=float)
    ctx.check(clause + '_nonneg', np.min(got) > -1e-6 * tot, got)
    ctx.close(clause + '_total', got.sum(), tot, 1e-4 * tot)
    if truth is not None:
        ctx.close(clause, got, truth, 0.005 * tot)
    else:
        val, _ = optimum(mat, raw)
        ctx.check(clause + '_optimal',
                  np.sum((raw - mat @ got) ** 2) <= val + 1e-4 * tot ** 2,
                  (got, val, np.sum((raw - mat @ got) ** 2)))


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def vec(counts, labels):
    return np.array([counts.get(lab, 0) for lab in labels], dtype=float)


def run_mit(case, ctx):
    _, n, labels, fam, units = case
    dim = len(labels)
    imat = matrix(dim, fam)
    mat = imat / D
    inv = np.linalg.inv(mat)
    filt = MeasurementFilter(mat.copy(), list(labels))
    pool = []
    for comp in grid(dim, units):
        t = np.array(comp)
        pool.append((imat @ t, D * t))
        if fam != 3:
            pool.append((200 * t, None))
    ctx.state(labels, fam, len(pool))
    full = n <= 2
    for idx, (raw, truth) in enumerate(pool):
        ctx.state(labels, fam, raw)
        want = inv @ raw
        cdict = {lab: int(v) for lab, v in zip(labels, raw) if v}
        if idx % 2:
            cdict = dict(reversed(list(cdict.items())))
        saved = dict(cdict)
        got = filt.apply(cdict, method='pseudo_inverse')
        ctx.step()
        ctx.equal('input_unmodified', list(cdict.items()), list(saved.items()))
        ctx.check('labels', set(got) <= set(labels), list(got))
        ctx.close('pinv_dict', vec(got, labels), want, 1e-6 * D)
        if truth is not None:
            ctx.close('inverse', vec(got, labels), truth, 1e-6 * D)
        ctx.outcome(vec(got, labels))
        lraw = [int(v) for v in raw]
        lsave = list(lraw)
        got = filt.apply(lraw, method='pseudo_inverse')
        ctx.step()
        ctx.close('pinv_list', np.asarray(got, dtype=float), want, 1e-6 * D)
        ctx.equal('input_unmodified', lraw, lsave)
        if full or idx % 3 == 0:
            np.random.seed(idx)
            got = filt.apply(cdict, method='least_squares')
            ctx.step()
            lsq(ctx, 'lsq_dict', vec(got, labels), mat, raw, truth)
            ctx.equal('input_unmodified', list(cdict.items()), list(saved.items()))
            np.random.seed(idx + 1)
            got = filt.apply(lraw, method='least_squares')
            ctx.step()
            lsq(ctx, 'lsq_list', got, mat, raw, truth)
            ctx.equal('input_unmodified', lraw, lsave)
    # several blocks / experiments: all windows of <=3 consecutive data
    step = 1 if full else 3
    for m in (1, 2, 3):
        for start in range(0, max(1, len(pool) - m), step * m):
            blk = [pool[(start + i) % len(pool)] for i in range(m)]
            flat = [int(v) for raw, _ in blk for v in raw]
            save = list(flat)
            got = np.asarray(filt.apply(flat, method='pseudo_inverse'), dtype=float)
            ctx.step()
            ctx.close('pinv_blocks', got, np.concatenate([inv @ r for r, _ in blk]), 1e-6 * D)
            ctx.equal('input_unmodified', flat, save)
            # experiments may share a name: results are positional
            names = ['e%d' % (0 if (start // (step * m)) % 2 else i) for i in range(m)]
            exps = [(names[i], {lab: int(v) for lab, v in zip(labels, raw) if v},
                     dict(width=n)) for i, (raw, _) in enumerate(blk)]
            res = qsim.make_result(exps)
            before = repr(res.to_dict())
            out = filt.apply(res, method='pseudo_inverse')
            ctx.step()
            ctx.check('input_unmodified', repr(res.to_dict()) == before, 'result changed')
            for i, (raw, _) in enumerate(blk):
                ctx.close('pinv_result', vec(out.get_counts(i), labels), inv @ raw, 1e-6 * D)
                ctx.equal('result_name', out.results[i].header.name, names[i])
            if start % (5 * m) == 0:
                for method in ('least_squares', None, 'default'):
                    kw = {} if method == 'default' else dict(method=method)
                    np.random.seed(start)
                    got = np.asarray(filt.apply(flat, **kw), dtype=float)
                    out = filt.apply(res, **kw)
                    ctx.step(2)
                    for i, (raw, truth) in enumerate(blk):
                        lsq(ctx, 'lsq_blocks', got.reshape(m, dim)[i], mat, raw, truth)
                        lsq(ctx, 'lsq_result', vec(out.get_counts(i), labels), mat, raw, truth)
                    ctx.check('input_unmodified', repr(res.to_dict()) == before, 'result')
                    ctx.equal('input_unmodified', flat, save)
    ctx.close('matrix_unmodified', filt.cal_matrix, mat, 1e-15)
    ctx.equal('labels_unmodified', filt.state_labels, labels)


def run_wide(case, ctx):
    """More qubits and many experiments, from one shot to 10^12 of them."""
    _, n, fam, m = case
    labs = qsim.bitstrings(n)
    for labels in (labs, labs[::-1], labs[5:] + labs[:5]):
        dim = len(labels)
        imat = matrix(dim, fam)
        inv = np.linalg.inv(imat / D)
        filt = MeasurementFilter(imat / D, list(labels))
        raws = []
        for i in range(m):
            t = np.array([(i * k + k * k) % (3 + i % 3) if (k + i) % 3 else 0 for k in range(dim)])
            t[i % dim] += 1
            if i % 5 == 0:
                t = np.eye(dim, dtype=int)[i % dim]
            raws.append(t * (10 ** (i % 4 * 4)))
        exps = [('exp_%d' % (i if i % 7 else 3), {lab: int(v) for lab, v in zip(labels, raw) if v},
                 dict(width=n)) for i, raw in enumerate(raws)]
        res = qsim.make_result(exps)
        before = repr(res.to_dict())
        out = filt.apply(res, method='pseudo_inverse')
        flat = np.asarray(filt.apply([int(v) for raw in raws for v in raw],
                                     method='pseudo_inverse'), dtype=float).reshape(m, dim)
        ctx.step(2)
        ctx.check('input_unmodified', repr(res.to_dict()) == before, 'result changed')
        ctx.equal('experiments', len(out.results), m)
        for i, raw in enumerate(raws):
            tol = 1e-6 * raw.sum() * max(1, np.abs(inv).max())
            ctx.close('wide_result', vec(out.get_counts(i), labels), inv @ raw, tol, i)
            ctx.close('wide_list', flat[i], inv @ raw, tol, i)
            ctx.equal('result_name', out.results[i].header.name, exps[i][0])
            if i < 6:
                got = filt.apply(exps[i][1], method='pseudo_inverse')
                ctx.step()
                ctx.close('wide_dict', vec(got, labels), inv @ raw, tol, i)
        ctx.outcome(flat)


def run_weights(case, ctx):
    """Data which are not integers (probabilities, averages); nearly singular calibrations."""
    _, n, fam = case
    labs = qsim.bitstrings(n)
    dim = len(labs)
    for labels in (labs, labs[::-1], labs[1:] + labs[:1]):
        if fam < 4:
            mat = matrix(dim, fam) / D
        else:
            # the smallest singular value is a few thousandths
            mat = np.eye(1)
            for q in range(n):
                e0 = (0.4985, 0.03, 0.05)[q]
                e1 = (0.4975, 0.06, 0.02)[q]
                mat = np.kron(np.array([[1 - e0, e1], [e0, 1 - e1]]), mat)
        filt = MeasurementFilter(mat.copy(), list(labels))
        inv = np.linalg.inv(mat)
        size = np.abs(inv).max()
        for i in range(dim + 3):
            truth = np.array([((i + 2) * k * k + k) % 7 + (k == i % dim) for k in range(dim)],
                             dtype=float)
            truth /= truth.sum()
            for tot in (1.0, 0.3, 777.7):
                raw = mat @ truth * tot
                cdict = {lab: float(v) for lab, v in zip(labels, raw)}
                got = filt.apply(cdict, method='pseudo_inverse')
                ctx.close('weights_dict', vec(got, labels), truth * tot, 1e-8 * size * tot)
                got = filt.apply([float(v) for v in raw], method='pseudo_inverse')
                ctx.close('weights_list', np.asarray(got, dtype=float), truth * tot,
                          1e-8 * size * tot)
                got = filt.apply([float(v) for v in np.concatenate([raw, 2 * raw])],
                                 method='pseudo_inverse')
                ctx.close('weights_blocks', np.asarray(got, dtype=float),
                          np.concatenate([truth, 2 * truth]) * tot, 2e-8 * size * tot)
                # quasi-probabilities
                quasi = truth - 1.5 * truth[i % dim] * (np.arange(dim) == i % dim)
                got = filt.apply([float(v) for v in mat @ quasi * tot], method='pseudo_inverse')
                ctx.close('weights_quasi', np.asarray(got, dtype=float), quasi * tot,
                          1e-8 * size * tot)
                got = filt.apply({lab: float(v) for lab, v in zip(labels, mat @ quasi * tot)},
                                 method='pseudo_inverse')
                ctx.close('weights_quasi', vec(got, labels), quasi * tot, 1e-8 * size * tot)
                ctx.step(5)
                if fam < 2 and i < 3 and tot == 777.7:
                    np.random.seed(i)
                    got = vec(filt.apply(cdict, method='least_squares'), labels)
                    ctx.step()
                    ctx.close('weights_lsq', got, truth * tot, 0.005 * tot)
            ctx.outcome(truth)


def run_fitter(case, ctx):
    """The filter obtained from a fitter undoes the very data it was fitted on."""
    n = case[1]
    labels = qsim.bitstrings(n)[::-1]
    imat = matrix(2 ** n, 0)
    names = qsim.bitstrings(n)
    exps = [('cal_' + names[j], {names[i]: int(imat[i, j]) for i in range(2 ** n)}, {})
            for j in range(2 ** n)]
    res = qsim.make_result(exps)
    filt = CompleteMeasFitter(res, labels).filter
    for method in ('pseudo_inverse', 'least_squares'):
        np.random.seed(1)
        out = filt.apply(res, method=method)
        ctx.step()
        for j in range(2 ** n):
            want = np.zeros(2 ** n)
            want[j] = D
            ctx.close('roundtrip', vec(out.get_counts('cal_' + names[j]), names), want, 0.01 * D)


def run_reject(case, ctx):
    filt = MeasurementFilter(np.eye(4), qsim.bitstrings(2))
    for bad in ({'000': 3}, {'00': 3, '2': 1}, [1, 2, 3], [1] * 6, 'x', 5):
        for method in ('pseudo_inverse', 'least_squares'):
            ctx.step()
            ctx.raises('reject', QiskitError, lambda b=bad, m=method: filt.apply(b, method=m),
                       str(bad))
    ctx.raises('reject', QiskitError, lambda: filt.apply({'00': 3}, method='nope'), 'method')
