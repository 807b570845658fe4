"""C06: calibration of expectation value mitigators."""
import itertools

import numpy as np
import scipy.linalg as la
from qiskit import QiskitError
from qiskit.ignis.mitigation.expval import (expval_meas_mitigator_circuits,
                                            ExpvalMeasMitigatorFitter)

from vlib import qsim
from checks.c04 import full_matrix, kron, one_qubit
from checks.c05 import gens, ref_generator

ID = 'C06'
BOUNDS = {
    'quick': 'circuits: 1-4 qubits, three methods and every label list of <=2 labels on <=2 qubits '
             'plus custom lists; fitting: complete on 1-3 qubits (5 noise families), tensored on '
             '1-4 qubits, CTMP on one qubit, on two qubits for every one- and two-generator noise, '
             'on 3-4 qubits for uncorrelated noise; every order of <=4 calibration experiments, '
             'every subset of labels sufficient or not, interleaved foreign and repeated '
             'experiments; correlated pairs beside uncorrelated qubits on 3-4 qubits; complete on 4, '
             'CTMP on 5, tensored on 6 and 11 qubits; circuits on 9, 10 and 12 qubits; noise '
             'without a generator, and of any form on 2 qubits (81 matrices); repeated equal results',
    'thorough': 'as quick with all triples of generators, 5 qubits and all orders of 5 experiments',
}
ASSUMPTIONS = ['gate matrices of qiskit-terra', 'noise tables are rounded to 1e-9 of the shots']
SHOTS = 10 ** 9


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, 6 if big else 5):
        for method in ('complete', 'tensored', 'CTMP', 'ctmp'):
            yield ['circ', n, method, None]
    for n in (1, 2):
        labs = qsim.bitstrings(n)
        for r in (1, 2):
            for combo in itertools.product(labs, repeat=r):
                yield ['circ', n, 'tensored', list(combo)]
    for combo in (['000', '101', '010'], ['110', '001'], ['011', '100', '111', '000']):
        yield ['circ', 3, 'complete', combo]
    yield ['reject']
    for n in (1, 2, 3):
        for fam in range(5):
            yield ['complete', n, fam]
    for n in range(1, 6 if big else 5):
        for fam in range(3):
            yield ['tensored', n, fam]
            for extra in range(3):
                yield ['tensored_labels', n, fam, extra]
    for rates in ([0.0, 0.0], [0.07, 0.0], [0.0, 0.05], [0.11, 0.04]):
        yield ['ctmp', 1, [['1', '0', [0]], ['0', '1', [0]]], rates]
    fam2 = standard(2)
    for r in (1, 2) + ((3,) if big else ()):
        for combo in itertools.combinations(fam2, r):
            yield ['ctmp', 2, [list(g) for g in combo], [0.06, 0.025, 0.04][:r]]
    yield ['ctmp', 2, [list(g) for g in fam2], [0.01 * (1 + (3 * i) % 8) for i in range(8)]]
    for n in (3, 4):
        single = [g for g in standard(n) if len(g[0]) == 1]
        for fam in range(3):
            yield ['ctmp', n, [list(g) for g in single],
                   [round(0.01 * (1 + (i * 5 + fam) % 7), 3) for i in range(len(single))]]
        for g in single:
            yield ['ctmp', n, [list(g)], [0.08]]
    for method, n in (('complete', 1), ('complete', 2), ('tensored', 2), ('CTMP', 2)):
        k = {'complete': 2 ** n, 'tensored': 2, 'CTMP': n + 2}[method]
        for perm in itertools.permutations(range(k)):
            yield ['order', method, n, list(perm)]
    if big:
        for perm in itertools.permutations(range(5)):
            yield ['order', 'CTMP', 3, list(perm)]
    for n in (1, 2):
        labs = qsim.bitstrings(n)
        for r in range(1, len(labs) + 1):
            for combo in itertools.combinations(labs, r):
                for method in ('complete', 'tensored'):
                    yield ['subset', method, n, list(combo)]
    for n in (1, 2, 3):
        yield ['merge', n]
    # one correlated pair, the other qubits with independent noise
    for n in (3, 4):
        for g in standard(n):
            if len(g[0]) == 2:
                rest = [('1', '0', (q,)) for q in range(n) if q not in g[2]]
                yield ['ctmp', n, [list(x) for x in [g] + rest],
                       [0.05] + [0.03 + 0.02 * i for i in range(len(rest))]]
    single = [g for g in standard(5) if len(g[0]) == 1]
    yield ['ctmp', 5, [list(g) for g in single],
           [round(0.01 * (1 + (i * 5) % 7), 3) for i in range(10)]]
    for fam in (0, 3, 4):
        yield ['complete', 4, fam]
    yield ['tensored', 6, 1]
    yield ['tensored_wide', 11, 0]
    yield ['tensored_wide', 11, 2]
    for n in (9, 10, 12):
        for method in ('tensored', 'CTMP'):
            yield ['circ_wide', n, method]
    for bad in ([0, 1], [1, 0], [0], [1]):
        yield ['no_generator', bad]
    for first in range(3):
        for second in range(3):
            yield ['any_noise', 2, first, second]
            yield ['any_noise', 3, first, second]


def standard(n):
    """The documented generator family: 0->1, 1->0, 01->10, 11->00, 00->11."""
    out = [('1', '0', (i,)) for i in range(n)] + [('0', '1', (i,)) for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        out += [('11', '00', (i, j)), ('00', '11', (i, j)), ('10', '01', (i, j)),
                ('10', '01', (j, i))]
    return out


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def run_circ(case, ctx):
    _, n, method, labels = case
    kw = {} if labels is None else dict(labels=list(labels))
    circs, meta = expval_meas_mitigator_circuits(n, method, **kw)
    ctx.step()
    ctx.equal('lengths', len(circs), len(meta))
    got = [m['cal'] for m in meta]
    if labels is not None:
        ctx.equal('labels', got, labels)
    elif method == 'complete':
        ctx.equal('labels', sorted(got), qsim.bitstrings(n))
    elif method == 'tensored':
        ctx.equal('labels', sorted(got), ['0' * n, '1' * n])
    else:
        need = {'0' * n, '1' * n} | {format(1 << i, '0%db' % n) for i in range(n)}
        ctx.equal('labels', sorted(set(got)), sorted(need))
        ctx.equal('number', len(got), n + 2)
    for circ, m in zip(circs, meta):
        ctx.equal('nqubits', circ.num_qubits, n)
        ctx.equal('method', m['method'], method)
        ctx.equal('experiment', m['experiment'], 'meas_mit')
        dist = qsim.dist(circ)
        ctx.close('prepared', dist.get(m['cal'], 0), 1.0)
        _, meas = qsim.strip_measure(circ)
        ctx.equal('measmap', meas, {q: q for q in range(n)})
        ctx.outcome(m['cal'], n)
    if labels is None:
        ctx.equal('distinct_names', len({c.name for c in circs}), len(set(got)))


def run_circ_wide(case, ctx):
    """Circuits on many qubits: bit flips, followed classically."""
    _, n, method = case
    circs, meta = expval_meas_mitigator_circuits(n, method)
    want = {'0' * n, '1' * n}
    if method == 'CTMP':
        want |= {format(1 << i, '0%db' % n) for i in range(n)}
    ctx.step()
    ctx.equal('labels', sorted(m['cal'] for m in meta), sorted(want))
    for circ, m in zip(circs, meta):
        flips = [0] * n
        for inst, qs, _ in qsim.instructions(circ):
            if inst.name in ('measure', 'barrier'):
                continue
            # one-qubit gates which flip the bit or do nothing
            mat = np.abs(np.asarray(inst.to_matrix()))
            ctx.equal('one_qubit_gates', len(qs), 1)
            if abs(mat[1, 0] - 1) < 1e-9:
                flips[qs[0]] ^= 1
            else:
                ctx.close('bit_flips', mat[0, 0], 1.0)
        ctx.equal('prepared', ''.join(map(str, flips[::-1])), m['cal'])
        _, meas = qsim.strip_measure(circ)
        ctx.equal('measmap', meas, {q: q for q in range(n)})
        ctx.outcome(m['cal'])


def run_no_generator(case, ctx):
    """Readout noise beyond what any continuous-time generator yields is refused."""
    bad = case[1]
    ones = [np.array([[0.2, 0.7], [0.8, 0.3]]) if q in bad else one_qubit(q, 0) for q in (0, 1)]
    mat = kron(ones)
    res, meta = data(mat, 2, qsim.bitstrings(2), 'CTMP')
    fitter = ExpvalMeasMitigatorFitter(res, meta)
    ctx.step()
    if len(bad) == 1:
        ctx.raises('no_generator', QiskitError, fitter.fit, 'no real generator exists')
    check_mit(ctx, fitter.fit('tensored'), mat)
    check_mit(ctx, fitter.fit('complete'), mat)


def run_reject(case, ctx):
    ctx.raises('reject', QiskitError, lambda: expval_meas_mitigator_circuits(2, 'nope'), 'method')
    res, meta = data(np.eye(2), 1, ['0', '1'], 'complete')
    fitter = ExpvalMeasMitigatorFitter(res, meta)
    ctx.raises('reject', QiskitError, lambda: fitter.mitigator, 'before fit')
    ctx.raises('reject', QiskitError, lambda: fitter.fit('nope'), 'method')


def counts_for(mat, n, label, shots=SHOTS):
    col = mat[:, int(label, 2)]
    return {format(i, '0%db' % n): int(round(p * shots)) for i, p in enumerate(col)
            if round(p * shots)}


def data(mat, n, labels, method, shots=SHOTS, foreign=False):
    """Result and metadata for the labels, with optional foreign experiments in between."""
    exps, meta = [], []
    if foreign:
        exps.append(('first', {'1' * n: 55}, dict(width=n)))
        meta.append({'experiment': 'other', 'cal': '0' * n})
    for i, lab in enumerate(labels):
        exps.append(('m%d' % i, counts_for(mat, n, lab, shots), dict(width=n)))
        meta.append({'experiment': 'meas_mit', 'cal': lab, 'method': method})
        if foreign:
            exps.append(('x%d' % i, {'1' * n: 77}, dict(width=n)))
            meta.append({'experiment': 'other', 'cal': '0' * n} if i % 2 else {})
    return qsim.make_result(exps), meta


def check_mit(ctx, mit, mat, tol=1e-6):
    ctx.close('assignment', np.asarray(mit.assignment_matrix()), mat, tol)
    ctx.close('mitigation', np.asarray(mit.mitigation_matrix()), np.linalg.inv(mat),
              tol * 20)
    ctx.step(2)
    ctx.outcome(np.round(mat, 5))


def run_complete(case, ctx):
    _, n, fam = case
    mat = full_matrix(n, fam)
    for foreign in (False, True):
        for labels in (qsim.bitstrings(n), qsim.bitstrings(n)[::-1]):
            res, meta = data(mat, n, labels, 'complete', foreign=foreign)
            fitter = ExpvalMeasMitigatorFitter(res, meta)
            check_mit(ctx, fitter.fit(), mat)
            check_mit(ctx, fitter.mitigator, mat)
            check_mit(ctx, ExpvalMeasMitigatorFitter(res, meta).fit('complete'), mat)
            if fam < 3:
                # the same data also determine the uncorrelated mitigators
                check_mit(ctx, fitter.fit('tensored'), mat)
                if n <= 2:
                    check_mit(ctx, fitter.fit('CTMP'), mat, 1e-5)
                check_mit(ctx, fitter.fit('complete'), mat)


def run_tensored(case, ctx):
    _, n, fam = case
    mat = kron([one_qubit(q, fam) for q in range(n)])
    for foreign in (False, True):
        res, meta = data(mat, n, ['0' * n, '1' * n], 'tensored', foreign=foreign)
        mit = ExpvalMeasMitigatorFitter(res, meta).fit()
        check_mit(ctx, mit, mat)
        for q in range(n):
            ctx.close('one_qubit', mit.assignment_matrix([q]), one_qubit(q, fam), 1e-6)
        res, meta = data(mat, n, ['0' * n, '1' * n], 'CTMP', foreign=foreign)
        check_mit(ctx, ExpvalMeasMitigatorFitter(res, meta).fit('tensored'), mat)


def run_tensored_wide(case, ctx):
    """More than ten qubits: the full matrices are not formed."""
    _, n, fam = case
    ones = [one_qubit(q, fam) for q in range(n)]
    exps, meta = [], []
    alt = ''.join('01'[i % 2] for i in range(n))
    for i, lab in enumerate(['0' * n, '1' * n, alt]):
        col = np.ones(1)
        for q in range(n):
            col = np.kron(ones[q][:, int(lab[n - 1 - q])], col)
        exps.append(('m%d' % i, {format(k, '0%db' % n): int(round(p * SHOTS))
                                 for k, p in enumerate(col) if round(p * SHOTS)}, dict(width=n)))
        meta.append({'experiment': 'meas_mit', 'cal': lab, 'method': 'tensored'})
    mit = ExpvalMeasMitigatorFitter(qsim.make_result(exps), meta).fit()
    for q in range(n):
        ctx.close('one_qubit', mit.assignment_matrix([q]), ones[q], 1e-5, str(q))
        ctx.step()
    for pair in ([10, 2], [1, 10], [9, 10]):
        want = np.kron(ones[pair[1]], ones[pair[0]])
        ctx.close('pair', mit.assignment_matrix(pair), want, 1e-5, str(pair))
        ctx.close('pair', mit.mitigation_matrix(pair), np.linalg.inv(want), 1e-4, str(pair))
        ctx.step(2)
    ctx.outcome(n, fam)


def run_tensored_labels(case, ctx):
    """Any labels which show each qubit in 0 and in 1."""
    _, n, fam, extra = case
    mat = kron([one_qubit(q, fam) for q in range(n)])
    alt = ''.join('01'[i % 2] for i in range(n))
    neg = ''.join('10'[i % 2] for i in range(n))
    labels = [[alt, neg], [neg, alt, '0' * n], ['1' * n, alt, neg, '0' * n, alt]][extra]
    res, meta = data(mat, n, labels, 'tensored')
    check_mit(ctx, ExpvalMeasMitigatorFitter(res, meta).fit(), mat)


def run_ctmp(case, ctx):
    _, n, glist, rates = case
    glist = [(g[0], g[1], tuple(g[2])) for g in glist]
    mat = la.expm(ref_generator(n, glist, rates))
    labels = ['0' * n, '1' * n] + [format(1 << i, '0%db' % n) for i in range(n)]
    labels = labels if n > 1 else ['0', '1']
    res, meta = data(mat, n, labels, 'CTMP')
    mit = ExpvalMeasMitigatorFitter(res, meta).fit()
    ctx.step()
    gmat = mit.generator_matrix()
    gmat = np.asarray(gmat.todense()) if hasattr(gmat, 'todense') else np.asarray(gmat)
    ctx.close('generator', gmat, ref_generator(n, glist, rates), 1e-4)
    check_mit(ctx, mit, mat, 1e-4)
    mit = ExpvalMeasMitigatorFitter(res, meta).fit('ctmp')
    check_mit(ctx, mit, mat, 1e-4)
    custom = standard(n)[::-1]
    mit = ExpvalMeasMitigatorFitter(res, meta).fit('CTMP', generators=custom)
    check_mit(ctx, mit, mat, 1e-4)


def run_order(case, ctx):
    _, method, n, perm = case
    labels = {'complete': qsim.bitstrings(n), 'tensored': ['0' * n, '1' * n],
              'CTMP': ['0' * n, '1' * n] + [format(1 << i, '0%db' % n) for i in range(n)]}[method]
    mat = full_matrix(n, 3 if method == 'complete' else 1)
    res, meta = data(mat, n, [labels[i] for i in perm], method)
    mit = ExpvalMeasMitigatorFitter(res, meta).fit()
    ctx.step()
    check_mit(ctx, mit, mat, 1e-4 if method == 'CTMP' else 1e-6)


def run_subset(case, ctx):
    _, method, n, labels = case
    mat = full_matrix(n, 0)
    res, meta = data(mat, n, labels, method)
    fitter = ExpvalMeasMitigatorFitter(res, meta)
    ctx.step()
    if method == 'complete':
        enough = len(labels) == 2 ** n
    else:
        enough = all({lab[q] for lab in labels} == {'0', '1'} for q in range(n))
    if enough:
        check_mit(ctx, fitter.fit(), mat)
    else:
        ctx.raises('insufficient', QiskitError, fitter.fit, str(labels))


def run_merge(case, ctx):
    """Repeated calibration experiments are pooled by shots."""
    n = case[1]
    mats = [full_matrix(n, 0), full_matrix(n, 2)]
    shots = [10 ** 6, 3 * 10 ** 6]
    for reps in ((0, 1), (0, 0, 1), (0, 1, 0), (1, 0, 0, 0), (1, 1)):
        exps, meta = [], []
        for k, rep in enumerate(reps):
            for lab in qsim.bitstrings(n):
                exps.append(('r%d%s' % (k, lab), counts_for(mats[rep], n, lab, shots[rep]),
                             dict(width=n)))
                meta.append({'experiment': 'meas_mit', 'cal': lab, 'method': 'complete'})
        res = qsim.make_result(exps)
        before = repr(res.to_dict())
        total = sum(shots[rep] for rep in reps)
        want = sum(shots[rep] / total * mats[rep] for rep in reps)
        fitter = ExpvalMeasMitigatorFitter(res, meta)
        check_mit(ctx, fitter.fit(), want, 1e-5)
        check_mit(ctx, ExpvalMeasMitigatorFitter(res, meta).fit(), want, 1e-5)
        ctx.check('input_unmodified', repr(res.to_dict()) == before, 'result')
        ctx.state(n, reps)


def run_any_noise(case, ctx):
    """Noise of no special form: the CTMP model is that of the logarithm, without negative rates."""
    _, n, first, second = case
    for third, fourth in itertools.product(range(3), repeat=2):
        pair = np.zeros((4, 4))
        for col, move in enumerate((first, second, third, fourth)):
            pair[col, col] = 0.88
            pair[col ^ (move + 1), col] = 0.09
            pair[col ^ ((move + 1) % 3 + 1), col] = 0.03
        mat = pair if n == 2 else np.kron(one_qubit(2, first), pair)
        labels = ['0' * n, '1' * n] + [format(1 << i, '0%db' % n) for i in range(n)]
        res, meta = data(mat, n, labels, 'CTMP')
        mit = ExpvalMeasMitigatorFitter(res, meta).fit()
        ctx.step()
        ctx.state(n, first, second, third, fourth)
        gmat = dense(mit.generator_matrix())
        off = gmat - np.diag(np.diag(gmat))
        ctx.check('no_negative_rate', off.min() >= -1e-12, off)
        ctx.close('rates_conserve', gmat.sum(axis=0), np.zeros(2 ** n), 1e-9)
        if n == 2:
            log = np.real(la.logm(pair))
            log = np.where(log < 0, 0, log)
            rates = []
            for b, a, qs in standard(2):
                if len(qs) == 2:
                    # first letter of the strings: first of the qubits
                    rates.append(log[sum(int(c) << q for c, q in zip(b, qs)),
                                     sum(int(c) << q for c, q in zip(a, qs))])
                else:
                    other = 1 << (1 - qs[0])
                    x, y = int(a) << qs[0], int(b) << qs[0]
                    rates.append((log[y, x] + log[y | other, x | other]) / 2)
            ctx.close('rates', gmat, ref_generator(2, standard(2), rates), 1e-4)
        ctx.outcome(np.round(gmat, 5))


def dense(mat):
    """Plain matrix."""
    return np.asarray(mat.todense()) if hasattr(mat, 'todense') else np.asarray(mat)
