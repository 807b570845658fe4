"""C04: complete and tensored expectation value mitigators."""
import itertools

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.expval import (CompleteExpvalMeasMitigator,
                                            TensoredExpvalMeasMitigator, expectation_value)

from vlib import qsim

ID = 'C04'
BOUNDS = {
    'quick': 'assignment matrices on 1-4 qubits (3 product families, 2 correlated ones); every '
             'ordered selection of qubits; every ordered selection of classical bits of counts on '
             'up to 2 more bits (<=3 selected); all indicator diagonals plus parity, ramp and '
             'weight; single-outcome, sparse and dense counts; all query sequences of length <=3 '
             'over 9 queries on one object, and all pairs of qubit selections queried one after '
             'the other; shots 1..10^13 x observables of size 1e-9..1e5; all '
             'outcomes of 9 and 10 qubits; fractional weights; readout wrong more often than right on any qubits',
    'thorough': 'as quick on 1-5 qubits, with all classical-bit selections of <=4 of 5 bits and '
                'query sequences of length 4',
}
ASSUMPTIONS = ['the assignment matrix of a selection is that with the unselected qubits prepared '
               'in 0 (exact for uncorrelated noise)', 'diagonals other than permutation-invariant '
               'ones are tested with ascending classical bits, matrices of the complete mitigator '
               'with ascending qubits (the documentation leaves other orders open)']


def one_qubit(q, fam):
    """2x2 assignment matrix of qubit q."""
    e0 = (0.01, 0.04, 0.11, 0.02, 0.07)[q % 5] * (1 + fam) + 0.003 * (q // 5)
    e1 = (0.08, 0.03, 0.05, 0.16, 0.01)[q % 5] * (1 + 0.5 * fam) + 0.005 * (q // 5)
    return np.array([[1 - e0, e1], [e0, 1 - e1]])


def kron(mats):
    out = np.ones((1, 1))
    for m in mats:
        out = np.kron(m, out)
    return out


def full_matrix(n, fam):
    """fam 0..2 product noise, 3..4 correlated."""
    if fam < 3:
        return kron([one_qubit(q, fam) for q in range(n)])
    return qsim.rational_stochastic(2 ** n, fam, 1000) / 1000.0


def marginal(mat, n, sel):
    """Assignment matrix on the listed qubits (bit k = sel[k]), others prepared in 0."""
    k = len(sel)
    out = np.zeros((2 ** k, 2 ** k))
    for j in range(2 ** k):
        col = sum(((j >> b) & 1) << q for b, q in enumerate(sel))
        for i in range(2 ** n):
            row = sum(((i >> q) & 1) << b for b, q in enumerate(sel))
            out[row, j] += mat[i, col]
    return out


def counts_family(m):
    """Counts on m bits."""
    keys = qsim.bitstrings(m)
    out = [{keys[i]: 7} for i in range(len(keys))] if m <= 3 else [{keys[5]: 7}]
    out.append({k: (i * 37 + 11 * i * i) % 101 + 1 for i, k in enumerate(keys)})
    out.append({k: 3 + i for i, k in reversed(list(enumerate(keys))) if i % 3 != 1})
    return out


def subsets(n):
    return [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]


def cases(tier):
    big = tier == 'thorough'
    top = 5 if big else 4
    for n in range(1, top + 1):
        for kind, fams in (('tensored', (0, 1, 2)), ('complete', (0, 2, 3, 4))):
            for fam in fams:
                for sel in qsim.ordered_subsets(range(n), range(1, min(n, 4) + 1)):
                    if n >= 4 and fam in (1, 2, 4) and len(sel) > 2:
                        continue
                    yield ['bits', kind, n, fam, list(sel)]
    for n in (2, 3):
        for kind, fam in (('tensored', 0), ('complete', 0), ('complete', 3)):
            for k in range(1, n + 1):
                for sel in itertools.permutations(range(n), k):
                    for m in range(k, min(n + 2, 5 if big else 4) + 1):
                        for cl in itertools.permutations(range(m), k):
                            yield ['clbits', kind, n, fam, list(sel), m, list(cl)]
    for kind in ('tensored', 'complete'):
        for length in (1, 2, 3) + ((4,) if big else ()):
            for seq in itertools.product(range(9), repeat=length):
                yield ['history', kind, list(seq)]
    for kind, fam in (('tensored', 0), ('complete', 0), ('complete', 3)):
        for sel in subsets(top):
            yield ['pairs', kind, top, fam, sel]
        yield ['scale', kind, fam]
        yield ['weights', kind, fam]
    yield ['scale', 'plain', 0]
    yield ['weights', 'plain', 0]
    for n in (9, 10):
        yield ['broad', n]
    for n in (1, 2, 3):
        for mask in range(1, 2 ** n):
            yield ['swapped', n, mask]
    for kind, n in (('tensored', 13), ('tensored', 6), ('complete', 6)):
        top = [q for q in (12, 10, 11, 5, 3, 0) if q < n]
        for sel in qsim.ordered_subsets(top, (1, 2)):
            yield ['wide', kind, n, list(sel)]
        for sel in itertools.permutations(top[:4], 3):
            yield ['wide', kind, n, list(sel)]
        yield ['wide', kind, n, top[:5]]
        yield ['wide', kind, n, top[::-1][:5]]
    for m in (1, 2, 3, 4):
        yield ['plain', m]
        for k in range(1, m + 1):
            for cl in itertools.permutations(range(m), k):
                yield ['plain_clbits', m, list(cl)]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def build(kind, n, fam):
    if kind == 'tensored':
        return TensoredExpvalMeasMitigator([one_qubit(q, fam) for q in range(n)])
    return CompleteExpvalMeasMitigator(full_matrix(n, fam))


def parity(k):
    return np.array([(-1.0) ** bin(i).count('1') for i in range(2 ** k)])


def weight(k):
    return np.array([0.3 * bin(i).count('1') ** 2 - 1 for i in range(2 ** k)])


def expected(inv, diag, probs, shots):
    """(expectation, standard deviation) of the mitigated estimator."""
    coef = diag @ inv
    mean = coef @ probs
    var = ((coef ** 2) @ probs - mean ** 2) / shots
    return mean, np.sqrt(max(var, 0))


def vector(counts, bits):
    """Frequencies on the listed bits (bit b of the index = bits[b])."""
    out = np.zeros(2 ** len(bits))
    for key, val in counts.items():
        out[sum(int(key[len(key) - 1 - c]) << b for b, c in enumerate(bits))] += val
    return out / out.sum(), int(out.sum())


def compare(ctx, clause, got, want):
    ctx.close(clause, got[0], want[0], 1e-9)
    # square roots amplify rounding of a vanishing variance
    ctx.check(clause + '_stddev', abs(got[1] - want[1]) < 1e-6, (got, want))


def run_bits(case, ctx):
    _, kind, n, fam, sel = case
    k = len(sel)
    mat = marginal(full_matrix(n, fam), n, sel)
    inv = np.linalg.inv(mat)
    mit = build(kind, n, fam)
    if kind == 'tensored' or sel == sorted(sel):
        ctx.close('assignment', mit.assignment_matrix(list(sel)), mat, 1e-10)
        ctx.close('mitigation', mit.mitigation_matrix(list(sel)), inv, 1e-9)
        ctx.step(2)
        if sel == list(range(n)):
            ctx.close('assignment', mit.assignment_matrix(), mat, 1e-10)
            ctx.close('mitigation', mit.mitigation_matrix(), inv, 1e-9)
    gamma = np.max(np.sum(np.abs(inv), axis=0))
    if kind == 'tensored':
        gamma = np.prod([np.max(np.sum(np.abs(np.linalg.inv(one_qubit(q, fam))), axis=0))
                         for q in sel])
    ctx.close('fidelity', mit.assignment_fidelity(list(sel)), np.mean(np.diag(mat)), 1e-10)
    ctx.close('stddev_bound', mit.stddev_upper_bound(50, list(sel)), gamma / np.sqrt(50), 1e-8)
    ctx.close('stddev_bound', mit.stddev_upper_bound(qubits=list(sel)), gamma, 1e-8)
    ctx.close('stddev_bound', mit.stddev_upper_bound(2, list(sel)), gamma / np.sqrt(2), 1e-8)
    ctx.equal('overhead', mit.mitigation_overhead(list(sel)), int(np.ceil(gamma ** 2 - 1e-12)))
    ctx.equal('required_shots', mit.required_shots(0.13, list(sel)),
              int(np.ceil(4 * gamma ** 2 / 0.13 ** 2)))
    ctx.step(4)
    diags = [None, 0.7 * np.arange(2 ** k) - 1, weight(k)]
    if k <= 2 or n <= 3:
        diags += list(np.eye(2 ** k))
    for counts in counts_family(k):
        probs, shots = vector(counts, list(range(k)))
        save = list(counts.items())
        for diag in diags:
            want = expected(inv, parity(k) if diag is None else diag, probs, shots)
            for form in ('array', 'list'):
                if form == 'list' and diag is not None:
                    given = [float(x) for x in diag]
                else:
                    given = diag
                got = mit.expectation_value(counts, diagonal=given, qubits=list(sel))
                ctx.step()
                compare(ctx, 'expval', got, want)
                got = expectation_value(counts, diagonal=given, qubits=tuple(sel),
                                        meas_mitigator=mit)
                ctx.step()
                compare(ctx, 'expval_function', got, want)
                if sel == list(range(k)):
                    # also when fewer bits than calibrated qubits are measured
                    got = mit.expectation_value(counts, diagonal=given)
                    ctx.step()
                    compare(ctx, 'expval_default_qubits', got, want)
            ctx.outcome(want)
        ctx.equal('input_unmodified', list(counts.items()), save)


def run_clbits(case, ctx):
    _, kind, n, fam, sel, m, clb = case
    k = len(sel)
    mit = build(kind, n, fam)
    order = sorted(range(k), key=lambda i: clb[i])
    asc = [clb[i] for i in order]
    qasc = [sel[i] for i in order]
    inv = np.linalg.inv(marginal(full_matrix(n, fam), n, qasc))
    diags = [None, weight(k)]
    if clb == asc:
        diags.append(0.7 * np.arange(2 ** k) - 1)
    for counts in counts_family(m)[-2:]:
        probs, shots = vector(counts, asc)
        save = list(counts.items())
        for diag in diags:
            want = expected(inv, parity(k) if diag is None else diag, probs, shots)
            got = mit.expectation_value(counts, diagonal=diag, qubits=list(sel),
                                        clbits=list(clb))
            ctx.step()
            compare(ctx, 'clbits', got, want)
            if sel == list(range(k)):
                got = mit.expectation_value(counts, diagonal=diag, clbits=list(clb))
                ctx.step()
                compare(ctx, 'clbits_default_qubits', got, want)
            if m == 3:
                spaced = {key[0] + ' ' + key[1:]: v for key, v in counts.items()}
                got = mit.expectation_value(spaced, diagonal=diag, qubits=list(sel),
                                            clbits=list(clb))
                ctx.step()
                compare(ctx, 'clbits_registers', got, want)
            ctx.outcome(want)
        ctx.equal('input_unmodified', list(counts.items()), save)


C3 = {'000': 5, '011': 4, '110': 9, '101': 1, '111': 8}
C2 = {'00': 5, '01': 4, '10': 9}


def query(mit, q):
    """The queries whose sequences are explored."""
    if q == 0:
        return mit.expectation_value(C3)
    if q == 1:
        return mit.expectation_value(C2, qubits=[2, 0])
    if q == 2:
        return mit.expectation_value(C2, qubits=[0, 2], diagonal=[1., 2., -3., 4.])
    if q == 3:
        return mit.expectation_value(C3, qubits=[1], clbits=[2])
    if q == 4:
        return mit.mitigation_matrix([1, 2])
    if q == 5:
        return mit.assignment_matrix([0, 2])
    if q == 6:
        return mit.assignment_matrix(), mit.mitigation_matrix()
    if q == 7:
        return mit.required_shots(0.1), mit.mitigation_overhead([0, 1])
    return mit.expectation_value(C3, qubits=[2, 1, 0], diagonal=list(range(8)))


def run_history(case, ctx):
    _, kind, seq = case
    fam = 3 if kind == 'complete' else 0
    mit = build(kind, 3, fam)
    mats = [full_matrix(3, fam)] if kind == 'complete' else [one_qubit(q, fam) for q in range(3)]
    for q in seq:
        got = query(mit, q)
        want = query(build(kind, 3, fam), q)
        ctx.step(2)
        for g, w in zip(got if isinstance(got, tuple) else [got],
                        want if isinstance(want, tuple) else [want]):
            ctx.close('history', g, w, 1e-12, 'query %d' % q)
        ctx.outcome(q, got)
    full = full_matrix(3, fam)
    ctx.close('unchanged', mit.assignment_matrix(), full, 1e-12)
    del mats


def run_pairs(case, ctx):
    """After any queries for one selection, those for every other selection are right."""
    _, kind, n, fam, first = case
    full = full_matrix(n, fam)
    counts = {k: dict(counts_family(k)[-2]) for k in range(1, n + 1)}

    def ask(mit, sel):
        mat = marginal(full, n, sel)
        inv = np.linalg.inv(mat)
        k = len(sel)
        probs, shots = vector(counts[k], list(range(k)))
        ctx.close('pair_mitigation', mit.mitigation_matrix(list(sel)), inv, 1e-8, str(sel))
        compare(ctx, 'pair_expval', mit.expectation_value(counts[k], qubits=list(sel)),
                expected(inv, parity(k), probs, shots))
        ctx.close('pair_assignment', mit.assignment_matrix(list(sel)), mat, 1e-10, str(sel))
        ctx.close('pair_bound', mit.stddev_upper_bound(9, list(sel)),
                  np.max(np.sum(np.abs(inv), axis=0)) / 3, 1e-8)
        ctx.step(4)
        ctx.outcome(inv)
    for second in subsets(n):
        mit = build(kind, n, fam)
        ask(mit, first)
        ask(mit, second)
        ask(mit, first)
    # and all of them on one object
    mit = build(kind, n, fam)
    ask(mit, first)
    for sel in subsets(n)[::-1]:
        ask(mit, sel)


def run_wide(case, ctx):
    """Large devices, large qubit and classical indices."""
    _, kind, n, sel = case
    k = len(sel)
    mit = build(kind, n, 0)
    mat = kron([one_qubit(q, 0) for q in sel])
    inv = np.linalg.inv(mat)
    if kind == 'tensored' or sel == sorted(sel):
        ctx.close('assignment', mit.assignment_matrix(list(sel)), mat, 1e-9)
        ctx.close('mitigation', mit.mitigation_matrix(list(sel)), inv, 1e-8)
        ctx.step(2)
    gamma = np.prod([np.max(np.sum(np.abs(np.linalg.inv(one_qubit(q, 0))), axis=0)) for q in sel])
    ctx.close('stddev_bound', mit.stddev_upper_bound(50, list(sel)), gamma / np.sqrt(50), 1e-8)
    for counts in counts_family(k)[-2:]:
        probs, shots = vector(counts, list(range(k)))
        for diag in (None, 0.7 * np.arange(2 ** k) - 1):
            want = expected(inv, parity(k) if diag is None else diag, probs, shots)
            compare(ctx, 'wide_expval', mit.expectation_value(counts, diagonal=diag,
                                                              qubits=list(sel)), want)
            ctx.step()
            # the same shots in the middle of 13 classical bits
            bits = [12, 10, 3, 11, 6][:k]
            long = {}
            for i, (key, val) in enumerate(counts.items()):
                word = ['01'[(i * 7 + b) % 3 == 0] for b in range(13)]
                for b, c in enumerate(bits):
                    word[12 - c] = key[k - 1 - b]
                long[''.join(word)] = val
            if diag is None:
                compare(ctx, 'wide_clbits', mit.expectation_value(
                    long, qubits=list(sel), clbits=list(bits)), want)
                ctx.step()
    ctx.outcome(want)


def run_broad(case, ctx):
    """All bits of many measured qubits."""
    n = case[1]
    mit = build('tensored', n, 0)
    for counts in ({k: 1 + (5 * i * i + i) % 17 for i, k in enumerate(qsim.bitstrings(n))},
                   {'1' * n: 5, '0' * n: 2, '01' + '1' * (n - 2): 4},
                   {'1' + '0' * (n - 1): 3}):
        probs, shots = vector(counts, list(range(n)))
        for diag in (None, np.arange(2.0 ** n) / 2 ** n - 0.2):
            use = parity(n) if diag is None else diag
            # apply the inverse factor by factor
            tens = use.reshape([2] * n)
            for q in range(n):
                tens = np.moveaxis(np.tensordot(tens, np.linalg.inv(one_qubit(q, 0)),
                                                axes=([n - 1 - q], [0])), -1, n - 1 - q)
            coef = tens.ravel()
            mean = coef @ probs
            want = mean, np.sqrt(max(((coef ** 2) @ probs - mean ** 2) / shots, 0))
            compare(ctx, 'broad', mit.expectation_value(counts, diagonal=diag), want)
            compare(ctx, 'broad', expectation_value(counts, diagonal=diag),
                    (use @ probs, np.sqrt(max(((use ** 2) @ probs - (use @ probs) ** 2) / shots,
                                              0))))
            ctx.step(2)
            ctx.outcome(want)


def run_swapped(case, ctx):
    """Readout which is more often wrong than right on some qubits."""
    _, n, mask = case
    ones = [one_qubit(q, 1)[::-1].copy() if mask >> q & 1 else one_qubit(q, 1) for q in range(n)]
    mat = kron(ones)
    inv = np.linalg.inv(mat)
    gamma = np.max(np.sum(np.abs(inv), axis=0))
    for mit in (TensoredExpvalMeasMitigator(ones), CompleteExpvalMeasMitigator(mat.copy())):
        ctx.close('mitigation', mit.mitigation_matrix(), inv, 1e-9)
        ctx.close('stddev_bound', mit.stddev_upper_bound(50), gamma / np.sqrt(50), 1e-8)
        ctx.equal('overhead', mit.mitigation_overhead(), int(np.ceil(gamma ** 2 - 1e-12)))
        ctx.close('fidelity', mit.assignment_fidelity(), np.mean(np.diag(mat)), 1e-10)
        ctx.step(4)
        for counts in counts_family(n):
            probs, shots = vector(counts, list(range(n)))
            compare(ctx, 'swapped', mit.expectation_value(counts),
                    expected(inv, parity(n), probs, shots))
            ctx.step()
    ctx.outcome(gamma)


def run_scale(case, ctx):
    """Sample errors of very many shots and of very large or small observables."""
    _, kind, fam = case
    for k in (1, 2):
        inv = np.eye(2 ** k) if kind == 'plain' else np.linalg.inv(
            marginal(full_matrix(3, fam), 3, list(range(k))))
        mit = None if kind == 'plain' else build(kind, 3, fam)
        for shots in [10 ** e for e in range(0, 13, 2)]:
            counts = {key: (i + 2) * shots for i, key in enumerate(qsim.bitstrings(k))}
            probs, num = vector(counts, list(range(k)))
            for size in (1e-9, 1e-4, 1.0, 1e5):
                diag = size * parity(k) * (1.0 + 0.1 * np.arange(2 ** k))
                mean, dev = expected(inv, diag, probs, num)
                got = expectation_value(counts, diagonal=diag, meas_mitigator=mit)
                ctx.step()
                ctx.close('scale', got[0] / size, mean / size, 1e-9)
                ctx.close('scale_stddev', got[1] / dev, 1.0, 1e-6, (shots, size))
                ctx.outcome(mean / size, dev / size)


def run_weights(case, ctx):
    """Weights which are no whole numbers; lists of different lengths are refused."""
    _, kind, fam = case
    for k in (1, 2, 3):
        inv = np.eye(2 ** k) if kind == 'plain' else np.linalg.inv(
            marginal(full_matrix(3, fam), 3, list(range(k))))
        mit = None if kind == 'plain' else build(kind, 3, fam)
        for total in (0.5, 1.0, 2.7, 999.25):
            weights = np.array([1.0 + (3 * i + fam) % 5 for i in range(2 ** k)])
            weights *= total / weights.sum()
            counts = {key: float(v) for key, v in zip(qsim.bitstrings(k), weights)}
            for diag in (None, weight(k)):
                want = expected(inv, parity(k) if diag is None else diag, weights / total, total)
                got = expectation_value(counts, diagonal=diag, meas_mitigator=mit)
                ctx.step()
                compare(ctx, 'weights', got, want)
                ctx.outcome(want)
    if mit is not None:
        for qubits, clbits in (([0, 1], [0]), ([0], [0, 1]), ([0, 1, 2], [1, 0]), ([2], [0, 1, 2])):
            ctx.raises('lengths', QiskitError, lambda q=qubits, c=clbits: expectation_value(
                {'000': 3, '101': 4}, qubits=q, clbits=c, meas_mitigator=mit),
                       '%s %s' % (qubits, clbits))
            ctx.step()


def run_plain(case, ctx):
    m = case[1]
    for counts in counts_family(m):
        probs, shots = vector(counts, list(range(m)))
        for diag in [None, weight(m), 0.5 * np.arange(2 ** m) - 2] + list(np.eye(2 ** m)):
            want = expected(np.eye(2 ** m), parity(m) if diag is None else diag, probs, shots)
            got = expectation_value(counts, diagonal=diag)
            ctx.step()
            compare(ctx, 'plain', got, want)
            if diag is not None:
                compare(ctx, 'plain', expectation_value(counts, diagonal=list(diag)), want)
            ctx.outcome(want)


def run_plain_clbits(case, ctx):
    _, m, clb = case
    k = len(clb)
    for counts in counts_family(m)[-2:]:
        probs, shots = vector(counts, sorted(clb))
        diags = [None, weight(k)]
        if clb == sorted(clb):
            diags.append(0.5 * np.arange(2 ** k) - 2)
        for diag in diags:
            want = expected(np.eye(2 ** k), parity(k) if diag is None else diag, probs, shots)
            got = expectation_value(counts, diagonal=diag, clbits=list(clb))
            ctx.step()
            compare(ctx, 'plain_clbits', got, want)
