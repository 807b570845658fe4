"""C01: complete readout calibration."""
import itertools

import numpy as np
from qiskit import QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.mitigation.measurement import complete_meas_cal, CompleteMeasFitter

from vlib import qsim

ID = 'C01'
BOUNDS = {
    'quick': 'circuits: every ordered selection of 1..3 of 4 qubits plus all orders of 4, 5 register '
             'forms, 2 circuit labels; fitting: n<=2 all label orders, n=3,4 order family; all '
             'permutations x cuts of <=4 result units over constructor/add_data (+ rebuild flags); '
             'all qubit sub-lists; all groupings of labels for n<=2; 5-6 qubits, qubit indices up to 12, up to 16 results; sub-lists taken during histories; all sequences of 2-4 of 3 result objects, repetitions included; relabelling',
    'thorough': 'as quick with every ordered selection of 1..4 of 5 qubits, 5 result units per '
                'history, more matrices and 5 qubits',
}
ASSUMPTIONS = ['gate matrices of qiskit-terra',
               'equal shots per label for sub-list marginalisation']


def orders(n):
    """Label orders explored for n qubits."""
    labels = qsim.bitstrings(n)
    if n <= 2:
        return [list(p) for p in itertools.permutations(labels)]
    out = [labels, labels[::-1], sorted(labels, key=lambda s: s[::-1]),
           labels[3:] + labels[:3], sorted(labels, key=lambda s: s.count('1'))]
    for i in range(len(labels) - 1):
        lab = list(labels)
        lab[i], lab[i + 1] = lab[i + 1], lab[i]
        out.append(lab)
    return out


def cases(tier):
    big = tier == 'thorough'
    nq = 5 if big else 4
    for sel in qsim.ordered_subsets(range(nq), (1, 2, 3, 4) if big else (1, 2, 3)):
        for form in ('none', 'int', 'reg', 'regbig', 'crbig'):
            for lab in ('', 'lab'):
                yield ['circ', list(sel), form, lab]
    if not big:
        for sel in itertools.permutations(range(4)):
            yield ['circ', list(sel), 'none', '']
    for k in (1, 2, 3):
        yield ['circ_whole', k]
    yield ['circ_reject']
    # label orders and matrix values
    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        for order in orders(n):
            for fam in range(4 if big else 2):
                if n >= 4 and fam > 1:
                    continue
                yield ['fit', n, order, fam]
    # histories: units are (label, batch)
    for n, units in ((1, [(0, 0), (1, 0)]), (1, [(0, 0), (1, 0), (0, 1)]),
                     (1, [(0, 0), (1, 0), (0, 1), (1, 1)]),
                     (2, [(0, 0), (1, 0), (2, 0), (3, 0)])) + \
            (((2, [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1)]),) if big else ()):
        for perm in itertools.permutations(units):
            for parts in qsim.compositions(perm, 5):
                for how in ('objs', 'one', 'mixed', 'lazy', 'ctor'):
                    yield ['hist', n, [[list(u) for u in p] for p in parts], how]
    # sub-lists
    for n in (2, 3, 4) + ((5,) if big else ()):
        qlists = [list(range(n)), [q * 2 + 1 for q in range(n)], list(range(n))[::-1]]
        if n <= 3:
            qlists += [list(p) for p in itertools.permutations(range(n))]
        for qlist in qlists:
            for sub in qsim.ordered_subsets(qlist, range(1, min(n, 3) + 1)):
                yield ['subset', qlist, list(sub), n % 2]
    for n in (1, 2):
        for part in qsim.set_partitions(qsim.bitstrings(n)):
            yield ['fidelity', n, part]
        for r in range(1, 2 ** n + 1):
            for grp in itertools.combinations(qsim.bitstrings(n), r):
                yield ['fidelity', n, [list(grp)]]
    yield ['fidelity', 3, [['000', '111'], ['010'], ['001', '100', '011']]]
    for n in (1, 2, 3):
        yield ['setter', n]
        for order in orders(n)[:8]:
            yield ['relabel', n, order]
    # the same result object given several times counts each time
    for n in (1, 2):
        for length in (2, 3, 4):
            for seq in itertools.product(range(3), repeat=length):
                for how in ('single', 'list'):
                    yield ['again', n, list(seq), how]
    yield ['uninit']
    # many qubits, large indices, many results
    for sel in ([11], [10, 2], [3, 12, 10], [9, 10, 11, 1]):
        for form in ('none', 'reg', 'crbig'):
            yield ['circ', sel, form, '']
    yield ['circ', [4, 2, 0, 3, 1], 'none', '']
    for n in (5, 6):
        labs = qsim.bitstrings(n)
        for order in (labs, labs[::-1], labs[7:] + labs[:7]):
            yield ['fit', n, order, 0]
    for n, batches in ((1, 6), (2, 3), (3, 2)):
        units = [(j, b) for b in range(batches) for j in range(2 ** n)]
        for step in (1, 5, 7):
            perm = [units[(i * step) % len(units)] for i in range(len(units))]
            for how in ('objs', 'one', 'lazy', 'ctor'):
                yield ['hist', n, [[list(u)] for u in perm], how]
            yield ['hist', n, [[list(u) for u in perm]], 'objs']
    for qlist in ([10, 2, 12, 7], [12, 11, 10], [4, 3, 2, 1, 0]):
        for sub in qsim.ordered_subsets(qlist, (1, 2)):
            yield ['subset', qlist, list(sub), 0]
    for n in (2, 3):
        for sub in qsim.ordered_subsets(range(n), range(1, n + 1)):
            for how in ('single', 'split', 'lazy'):
                yield ['subhist', n, list(sub), how]


def matrix(n, fam, denom=400):
    """Integer confusion table, column = prepared label (numeric order)."""
    if fam == 1 and n <= 3:
        # strongly permuted table
        mat = qsim.rational_stochastic(2 ** n, 3, denom)
        return np.roll(mat, 1, axis=0)
    return qsim.rational_stochastic(2 ** n, fam, denom)


def counts_for(mat, j, n):
    return {format(i, '0%db' % n): int(mat[i, j]) for i in range(2 ** n) if mat[i, j]}


def run(case, ctx):
    kind = case[0]
    ctx.kind(kind)
    ctx.state(case)
    globals()['run_' + kind](case, ctx)


def run_circ(case, ctx):
    _, sel, form, lab = case
    n = len(sel)
    qr, cr, nreg, ncl = None, None, max(sel) + 1, n
    if form == 'int':
        qr, nreg = 6, 6
    elif form == 'reg':
        qr = QuantumRegister(max(sel) + 1, 'qq')
    elif form == 'regbig':
        qr, cr, nreg = QuantumRegister(7, 'qq'), ClassicalRegister(n, 'cc'), 7
    elif form == 'crbig':
        cr, ncl = n + 2, n + 2
    ctx.step()
    circs, labels = complete_meas_cal(qubit_list=list(sel), qr=qr, cr=cr, circlabel=lab)
    ctx.equal('labels', sorted(labels), qsim.bitstrings(n))
    ctx.equal('number', len(circs), 2 ** n)
    ctx.equal('names', sorted(c.name for c in circs),
              sorted(lab + 'cal_' + x for x in qsim.bitstrings(n)))
    for circ in circs:
        label = circ.name[len(lab + 'cal_'):]
        ctx.equal('nqubits', circ.num_qubits, nreg)
        ctx.equal('nclbits', circ.num_clbits, ncl)
        body, meas = qsim.strip_measure(circ)
        ctx.equal('measmap', meas, {k: q for k, q in enumerate(sel)})
        want = 0
        for k, q in enumerate(sel):
            if label[-1 - k] == '1':
                want |= 1 << q
        got = qsim.unitary(body)[:, 0] if nreg <= 4 else None
        if got is not None:
            ctx.check('prepared', abs(abs(got[want]) - 1) < 1e-9, (label, want))
        dist = qsim.run(body if body.num_clbits == 0 else circ)
        wantbits = tuple(int(label[-1 - k]) if k < n else 0 for k in range(ncl))
        ctx.check('outcome', abs(dist.get(wantbits, 0) - 1) < 1e-9, (label, str(dist)))
        # other qubits untouched: no gate acts on them
        touched = {q for inst, qs, _ in qsim.instructions(circ) if inst.name != 'barrier'
                   for q in qs}
        ctx.check('others', touched <= set(sel), (touched, sel))
        ctx.outcome(label, sel)
        ctx.step()


def run_circ_whole(case, ctx):
    k = case[1]
    for qr in (k, QuantumRegister(k, 'r')):
        circs, labels = complete_meas_cal(qr=qr)
        ctx.step()
        ctx.equal('labels', sorted(labels), qsim.bitstrings(k))
        for circ in circs:
            dist = qsim.dist(circ)
            ctx.close('outcome', dist.get(circ.name[4:], 0), 1.0)


def run_circ_reject(case, ctx):
    ctx.raises('reject', QiskitError, complete_meas_cal, 'no qubits')
    ctx.raises('reject', QiskitError, lambda: complete_meas_cal([0, 1, 0]), 'duplicate qubits')


def reference(mat, n, order):
    """Reference calibration matrix (frequencies) in label order."""
    idx = [int(lab, 2) for lab in order]
    tot = mat.sum(axis=0)
    freq = np.divide(mat, tot, out=np.zeros(mat.shape, dtype=float), where=tot != 0)
    return freq[np.ix_(idx, idx)]


def run_fit(case, ctx):
    _, n, order, fam = case
    mat = matrix(n, fam)
    # different total shots for different labels must not matter
    for scale in (None, [1 + (j % 3) for j in range(2 ** n)]):
        m = mat if scale is None else mat * np.array(scale)[None, :]
        exps = [('cal_' + format(j, '0%db' % n), counts_for(m, j, n), dict(width=n))
                for j in range(2 ** n)]
        exps.insert(1, ('unrelated', {'0' * n: 5}, dict(width=n)))
        res = qsim.make_result(exps)
        for qlist in (None, [2 * q for q in range(n)]):
            fitter = CompleteMeasFitter(res, list(order), qubit_list=qlist)
            ctx.step()
            ctx.close('cal_matrix', fitter.cal_matrix, reference(m, n, order), 1e-12)
            ctx.equal('labels', list(fitter.state_labels), order)
            ctx.close('filter_matrix', fitter.filter.cal_matrix, reference(m, n, order), 1e-12)
            ctx.equal('filter_labels', list(fitter.filter.state_labels), order)
            ctx.close('fidelity', fitter.readout_fidelity(),
                      np.mean(np.diag(reference(m, n, order))), 1e-12)
            ctx.outcome(fitter.cal_matrix)
    # single shots next to many
    rare = np.array([[[1, 100000, 2, 1][(r + p + fam) % 4] if (r * 3 + p) % 5 < 3 or r == p else 0
                      for p in range(2 ** n)] for r in range(2 ** n)])
    exps = [('cal_' + format(j, '0%db' % n), counts_for(rare, j, n), dict(width=n))
            for j in range(2 ** n)]
    fitter = CompleteMeasFitter(qsim.make_result(exps), list(order))
    ctx.step()
    ctx.close('rare', fitter.cal_matrix, reference(rare, n, order), 1e-12)
    # circlabel selects its own circuits
    exps = [('Acal_' + format(j, '0%db' % n), counts_for(mat, j, n), dict(width=n))
            for j in range(2 ** n)]
    fitter = CompleteMeasFitter(qsim.make_result(exps), list(order), circlabel='A')
    ctx.step()
    ctx.close('circlabel', fitter.cal_matrix, reference(mat, n, order), 1e-12)
    other = np.roll(mat, 1, axis=0)
    exps += [('Bcal_' + format(j, '0%db' % n), counts_for(other, j, n), dict(width=n))
             for j in range(2 ** n)]
    for lab, m in (('A', mat), ('B', other)):
        fitter = CompleteMeasFitter(qsim.make_result(exps), list(order), circlabel=lab)
        ctx.step()
        ctx.close('circlabel', fitter.cal_matrix, reference(m, n, order), 1e-12)


def run_hist(case, ctx):
    _, n, parts, how = case
    order = qsim.bitstrings(n)[::-1]
    mats = [matrix(n, 0, 300), matrix(n, 2, 700), matrix(n, 1, 500), matrix(n, 0, 100),
            matrix(n, 2, 900), matrix(n, 1, 800)]

    def obj(units):
        return qsim.make_result(
            [('cal_' + format(j, '0%db' % n), counts_for(mats[b], j, n), dict(width=n))
             for j, b in units])

    def parcel(part):
        """Results of one call."""
        if how == 'one':
            return obj(part)
        if how == 'mixed' and len(part) > 1:
            return [obj(part[:1]), obj(part[1:])]
        if how == 'objs' and len(part) == 1:
            return obj(part)
        return [obj([u]) for u in part]

    acc = np.zeros((2 ** n, 2 ** n), dtype=int)

    def add(part):
        for j, b in part:
            acc[:, j] += mats[b][:, j]
    if how == 'ctor':
        fitter = CompleteMeasFitter(parcel(parts[0]), order)
        add(parts[0])
        rest = parts[1:]
    else:
        fitter = CompleteMeasFitter(None, order)
        rest = parts
    ctx.step()
    for i, part in enumerate(rest):
        lazy = how == 'lazy' and i < len(rest) - 1
        fitter.add_data(parcel(part), rebuild_cal_matrix=not lazy)
        ctx.step()
        add(part)
        ctx.state('acc', n, acc)
        if not lazy:
            ctx.close('history', fitter.cal_matrix, reference(acc, n, order), 1e-12,
                      'after part %d' % i)
    ctx.outcome(fitter.cal_matrix)
    ctx.close('history', fitter.cal_matrix, reference(acc, n, order), 1e-12)


def run_subset(case, ctx):
    _, qlist, sub, fam = case
    n = len(qlist)
    mat = matrix(n, fam, 1000)
    order = orders(n)[fam]
    exps = [('cal_' + format(j, '0%db' % n), counts_for(mat, j, n), dict(width=n))
            for j in range(2 ** n)]
    fitter = CompleteMeasFitter(qsim.make_result(exps), order, qubit_list=qlist)
    new = fitter.subset_fitter(list(sub))
    ctx.step(2)
    k = len(sub)
    pos = [qlist.index(q) for q in sub]

    def reduce(val):
        return sum(((val >> p) & 1) << b for b, p in enumerate(pos))
    want = np.zeros((2 ** k, 2 ** k))
    for i in range(2 ** n):
        for j in range(2 ** n):
            want[reduce(i), reduce(j)] += mat[i, j]
    want = want / want.sum(axis=0)
    idx = [int(lab, 2) for lab in new.state_labels]
    ctx.equal('labels', sorted(idx), list(range(2 ** k)))
    ctx.close('subset', new.cal_matrix, want[np.ix_(idx, idx)], 1e-12)
    ctx.equal('subset_qubits', list(new.qubit_list), list(sub))
    ctx.close('original', fitter.cal_matrix, reference(mat, n, order), 1e-12)
    ctx.outcome(new.cal_matrix)
    for other in [q for q in range(max(qlist)) if q not in qlist][:2] + [97]:
        for bad in ([other], [qlist[0], other], [other, qlist[-1]]):
            ctx.raises('reject', QiskitError, lambda bad=bad: fitter.subset_fitter(bad),
                       'foreign qubit')


def run_subhist(case, ctx):
    """Sub-lists taken at every point of a history, of the fitter and of another sub-list."""
    _, n, sub, how = case
    qlist = [2 * q + 1 for q in range(n)][::-1]
    sub = [qlist[k] for k in sub]
    order = orders(n)[-1]
    fitter = CompleteMeasFitter(None, order, qubit_list=list(qlist))
    acc = np.zeros((2 ** n, 2 ** n), dtype=int)
    taken = []

    def want_for(mat, src, dst):
        pos = [src.index(q) for q in dst]

        def reduce(val):
            return sum(((val >> p) & 1) << b for b, p in enumerate(pos))
        out = np.zeros((2 ** len(dst), 2 ** len(dst)))
        for i in range(2 ** n):
            for j in range(2 ** n):
                out[reduce(i), reduce(j)] += mat[i, j]
        return out / out.sum(axis=0)

    def same(sf, want, what):
        idx = [int(lab, 2) for lab in sf.state_labels]
        ctx.close('subset_history', sf.cal_matrix, want[np.ix_(idx, idx)], 1e-12, what)
        ctx.close('subset_history', sf.filter.cal_matrix, want[np.ix_(idx, idx)], 1e-12, what)
        ctx.close('subset_history', sf.readout_fidelity(), np.mean(np.diag(want)), 1e-12, what)

    for b in range(3):
        mat = matrix(n, (b + 1) % 3, 200 * (b + 1))
        exps = [('cal_' + format(j, '0%db' % n), counts_for(mat, j, n), dict(width=n))
                for j in range(2 ** n)]
        if how == 'single':
            fitter.add_data(qsim.make_result(exps))
        elif how == 'split':
            for e in exps:
                fitter.add_data([qsim.make_result([e])])
        else:
            for e in exps[:-1]:
                fitter.add_data(qsim.make_result([e]), rebuild_cal_matrix=False)
            fitter.add_data(qsim.make_result(exps[-1:]))
        acc += mat
        sf = fitter.subset_fitter(list(sub))
        ctx.step(2)
        taken.append((sf, want_for(acc, qlist, sub)))
        same(sf, taken[-1][1], 'now')
        for old, want in taken:
            same(old, want, 'taken earlier')
        if len(sub) > 1:
            part = sub[::-1][:2]
            same(sf.subset_fitter(list(part)), want_for(acc, qlist, part), 'sub-list of a sub-list')
        ctx.close('original', fitter.cal_matrix, reference(acc, n, order), 1e-12)
    ctx.outcome(taken[-1][1])


def run_fidelity(case, ctx):
    _, n, groups = case
    for fam in (0, 2):
        mat = matrix(n, fam)
        for order in orders(n)[:6]:
            exps = [('cal_' + format(j, '0%db' % n), counts_for(mat, j, n), dict(width=n))
                    for j in range(2 ** n)]
            fitter = CompleteMeasFitter(qsim.make_result(exps), order)
            freq = reference(mat, n, qsim.bitstrings(n))
            want = np.mean([np.mean([sum(freq[int(i, 2), int(j, 2)] for i in grp)
                                     for j in grp]) for grp in groups])
            ctx.step(2)
            ctx.close('fidelity', fitter.readout_fidelity(groups), want, 1e-12)
            ctx.outcome(want)


def run_setter(case, ctx):
    n = case[1]
    mat = qsim.rational_stochastic(2 ** n, 1, 100) / 100.0
    fitter = CompleteMeasFitter(None, qsim.bitstrings(n))
    mine = mat.copy()
    fitter.cal_matrix = mine
    ctx.step()
    ctx.close('setter', fitter.cal_matrix, mat)
    mine[0, 0] = 7
    ctx.close('setter_copy', fitter.cal_matrix, mat)
    ctx.close('setter_filter', fitter.filter.cal_matrix, mat)
    ctx.close('fidelity', fitter.readout_fidelity(), np.mean(np.diag(mat)))


def run_relabel(case, ctx):
    """Labels set together with a matrix in their order."""
    _, n, order = case
    mat = qsim.rational_stochastic(2 ** n, 1, 100)
    exps = [('cal_' + format(j, '0%db' % n), counts_for(mat, j, n), dict(width=n))
            for j in range(2 ** n)]
    fitter = CompleteMeasFitter(qsim.make_result(exps), qsim.bitstrings(n))
    want = reference(mat, n, order)
    fitter.cal_matrix = want
    fitter.state_labels = list(order)
    ctx.step(3)
    ctx.equal('labels', list(fitter.state_labels), order)
    ctx.equal('filter_labels', list(fitter.filter.state_labels), order)
    ctx.close('setter', fitter.cal_matrix, want, 1e-12)
    raw = {lab: int(v) for lab, v in zip(qsim.bitstrings(n), mat @ np.arange(1, 2 ** n + 1))}
    got = fitter.filter.apply(raw, method='pseudo_inverse')
    ctx.close('relabelled', [got.get(lab, 0) for lab in qsim.bitstrings(n)],
              100 * np.arange(1, 2 ** n + 1), 1e-6)
    ctx.outcome(want)


def run_again(case, ctx):
    _, n, seq, how = case
    order = qsim.bitstrings(n)
    mats = [matrix(n, 0, 300), matrix(n, 2, 700), matrix(n, 1, 500)]
    objs = [qsim.make_result(
        [('cal_' + format(j, '0%db' % n), counts_for(m, j, n), dict(width=n))
         for j in range(2 ** n)]) for m in mats]
    acc = np.zeros((2 ** n, 2 ** n), dtype=int)
    fitter = CompleteMeasFitter(None, order)
    if how == 'list':
        fitter.add_data([objs[k] for k in seq])
        ctx.step()
        for k in seq:
            acc += mats[k]
    else:
        for k in seq:
            fitter.add_data(objs[k])
            ctx.step()
            acc += mats[k]
            ctx.close('repeated', fitter.cal_matrix, reference(acc, n, order), 1e-12)
    ctx.close('repeated', fitter.cal_matrix, reference(acc, n, order), 1e-12)
    ctx.state(acc)
    ctx.outcome(acc)


def run_uninit(case, ctx):
    fitter = CompleteMeasFitter(None, ['0', '1'])
    ctx.raises('reject', QiskitError, fitter.readout_fidelity, 'fidelity without data')
    ctx.raises('reject', QiskitError, lambda: fitter.subset_fitter([0]), 'subset without data')
