"""C09: state tomography fitting."""
import itertools

import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.verification.tomography import (state_tomography_circuits,
                                                  StateTomographyFitter, TomographyFitter)
from qiskit.ignis.verification.tomography.basis import TomographyBasis
from qiskit.ignis.verification.tomography.fitters.lstsq_fit import make_positive_semidefinite

from vlib import qsim

ID = 'C09'
BOUNDS = {
    'quick': 'all 6 one-qubit and 60 two-qubit stabilizer states, a 3-qubit family, generic '
             'states and mixtures; every ordered selection of <=3 of 3 qubits; register layouts '
             'with extra classical registers; circuits given as objects or names; results split '
             'into <=3 objects / add_data calls in every order; count tables: all 1-qubit tables '
             'with <=3 shots per setting and 640 two-qubit tables for physicality; weights on/off, '
             'least-squares and convex solver (compared with the optimum of an independent '
             'minimisation), hedging, unconstrained and rescaled-trace fits; circuits repeated in '
             'several results; 4 measured qubits; 12-qubit registers',
    'thorough': 'as quick with all 1-qubit tables up to 5 shots, 4096 two-qubit tables and the '
                'convex solver on all stabilizer states',
}
ASSUMPTIONS = ['exact statistics are given as counts of 2^24 shots (rounding below 1e-7)',
               'the convex solver installed here is accurate to 1e-2 only']
SHOTS = 2 ** 24
ONE = {'Zp': [], 'Zm': ['x'], 'Xp': ['h'], 'Xm': ['x', 'h'], 'Yp': ['h', 's'],
       'Ym': ['x', 'h', 's']}


def prep(circ, kind, arg):
    qs = circ.qubits
    if kind == 'prod':
        for q, s in zip(qs, arg):
            for g in ONE[s]:
                getattr(circ, g)(q)
    elif kind == 'bell':   # every entangled two-qubit stabilizer state: (I x C) |Bell>
        circ.h(qs[0])
        circ.cx(qs[0], qs[1])
        for g in arg:
            getattr(circ, g)(qs[1])
    elif kind == 'ghz':
        circ.h(qs[0])
        for a, b in zip(qs, qs[1:]):
            circ.cx(a, b)
        for g in arg:
            getattr(circ, g)(qs[-1])
    elif kind == 'gen':
        for i, q in enumerate(qs):
            circ.ry(.3 + .41 * i + arg, q)
            circ.rz(.7 - .23 * i, q)
        for i in range(len(qs) - 1):
            circ.cx(qs[i], qs[i + 1])
            circ.rx(.5 + .2 * i, qs[i])
        if len(qs) > 2:
            circ.cx(qs[-1], qs[0])


CLIFF = []
for _u in ([], ['h'], ['h', 's'], ['s', 'h'], ['s'], ['s', 'h', 's']):
    for _p in ([], ['x'], ['z'], ['y']):
        CLIFF.append(list(_u) + list(_p))


def cases(tier):
    big = tier == 'thorough'
    for s in ONE:
        yield ['fit', 1, 'one', 'prod', [s], [0], 'lstsq']
        yield ['fit', 1, 'one', 'prod', [s], [0], 'cvx']
    for s in itertools.product(ONE, repeat=2):
        yield ['fit', 2, 'one', 'prod', list(s), [0, 1], 'lstsq']
        if big or s[0] == 'Xp':
            yield ['fit', 2, 'one', 'prod', list(s), [0, 1], 'cvx']
    for c in CLIFF:
        yield ['fit', 2, 'one', 'bell', c, [0, 1], 'lstsq']
        yield ['fit', 2, 'one', 'bell', c, [1, 0], 'default']
        if big:
            yield ['fit', 2, 'one', 'bell', c, [0, 1], 'cvx']
    for n in (1, 2, 3):
        for sel in qsim.ordered_subsets(range(n), range(1, n + 1)):
            for lay in ('one', 'creg', 'cregs', 'mid'):
                for off in (0., .37) if lay == 'one' else (.11,):
                    yield ['fit', n, lay, 'gen', off, list(sel), 'default']
    for s in itertools.product(['Zp', 'Xm', 'Yp'], repeat=3):
        yield ['fit', 3, 'one', 'prod', list(s), [2, 0, 1], 'default']
    for c in CLIFF[::3]:
        yield ['fit', 3, 'one', 'ghz', c, [1, 2, 0], 'default']
    for n, sel in ((1, [0]), (2, [1, 0]), (3, [0, 2])):
        for parts in range(1, 4):
            for perm in itertools.permutations(range(3)):
                for mode in ('list', 'calls', 'calls_names', 'names', 'dup', 'dup_same',
                             'dup_list'):
                    for lay in ('one', 'mid'):
                        yield ['split', n, lay, sel, parts, list(perm), mode]
    for sel in ([10], [10, 2], [1, 11]):
        yield ['fit', 12, 'one', 'gen', .2, sel, 'default']
    for s in (['Zp', 'Xm', 'Yp', 'Ym'], ['Xp', 'Zm', 'Zp', 'Yp']):
        yield ['fit', 4, 'one', 'prod', s, [2, 0, 3, 1], 'lstsq']
    yield ['fit', 4, 'one', 'gen', .15, [0, 1, 2, 3], 'lstsq']
    yield ['fit', 4, 'creg', 'gen', .15, [3, 1, 0, 2], 'lstsq']
    yield ['custom']
    top = 6 if big else 4
    for shots in range(1, top):
        for tab in itertools.product(range(shots + 1), repeat=3):
            for w in (True, False):
                yield ['phys', 1, shots, list(tab), w]
    for tab in itertools.product(range(4), repeat=3):
        for kind in range(5 if not big else 32):
            for w in (True, False):
                yield ['phys', 2, kind, list(tab), w]
    # settings with different, small numbers of shots
    few = [(1, 0), (0, 2), (1, 1), (0, 5), (30, 3)] + ([(0, 1), (4, 0), (2, 7)] if big else [])
    for tab in itertools.product(range(len(few)), repeat=3):
        for w in (True, False):
            yield ['phys', 1, [few[i] for i in tab], None, w]
    for kind in range(24 if big else 8):
        for w in (True, False):
            yield ['phys', 2, kind, 'mixed', w]
    for n, sel in ((1, [0]), (2, [1, 0]), (3, [0, 2])):
        for kind in range(3):
            yield ['shots', n, sel, kind]
    # the convex fit of inconsistent tables; four qubits
    for tab in itertools.product(range(4), repeat=3):
        if big or sum(tab) % 3 == 0:
            yield ['convex', 1, 3, list(tab)]
    for kind in range(16 if big else 5):
        yield ['convex', 2, kind, [kind % 4, (3 * kind + 1) % 4, 2]]
    for kind in range(2):
        yield ['phys', 4, kind, 'mixed', True]
    for i in range(6):
        yield ['truncate', i]
    for i in range(5):
        yield ['reject', i]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def build(n, lay, kind, arg):
    regs = [QuantumRegister(n, 'q')]
    if lay in ('creg', 'mid'):
        regs.append(ClassicalRegister(2, 'old'))
    if lay == 'cregs':
        regs += [ClassicalRegister(1, 'z'), ClassicalRegister(n, 'aa')]
    circ = QuantumCircuit(*regs)
    prep(circ, kind, arg)
    if lay == 'mid':
        circ.measure(0, 0)
        circ.ry(.4, 0)
        if n > 1:
            circ.cx(0, 1)
            circ.measure(1, 1)
            circ.rx(.9, 1)
    return circ


def ref_rho(circ, sel):
    """Reduced state of the listed qubits; position j of the list is subsystem j."""
    n = circ.num_qubits
    psi = np.zeros((2,) * n, dtype=complex)
    psi[(0,) * n] = 1
    branches = [psi]
    for inst, qs, _ in qsim.instructions(circ):
        if inst.name == 'barrier':
            continue
        if inst.name == 'measure':
            new = []
            for st in branches:
                for v in (0, 1):
                    ns = np.zeros_like(st)
                    sl = [slice(None)] * n
                    sl[n - 1 - qs[0]] = v
                    ns[tuple(sl)] = st[tuple(sl)]
                    new.append(ns)
            branches = new
        else:
            mat = qsim.gate_matrix(inst)
            branches = [qsim.apply(s, mat, qs, n) for s in branches]
    k = len(sel)
    rho = np.zeros((2 ** k, 2 ** k), dtype=complex)
    for st in branches:
        t = np.moveaxis(st, [n - 1 - q for q in reversed(sel)], range(k)).reshape(2 ** k, -1)
        rho += t @ t.conj().T
    return rho


def counts_of(circ, shots=SHOTS):
    out = {k: int(round(p * shots)) for k, p in qsim.dist(circ).items()}
    return {k: v for k, v in out.items() if v}


def experiment(circ, shots=SHOTS, name=None):
    return (name or circ.name, counts_of(circ, shots),
            dict(width=circ.num_clbits, creg_sizes=[[r.name, r.size] for r in circ.cregs]))


def fit(fitter, method):
    if method == 'default':
        return fitter.fit()
    return fitter.fit(method=method)


def run_fit(case, ctx):
    _, n, lay, kind, arg, sel, method = case
    circ = build(n, lay, kind, arg)
    circs = state_tomography_circuits(circ, sel)
    res = qsim.make_result([experiment(c) for c in circs])
    fitter = StateTomographyFitter(res, circs)
    got = fit(fitter, method)
    ctx.step(2)
    want = ref_rho(circ, sel)
    ctx.close('state', got, want, 2e-2 if method == 'cvx' else 2e-5, (lay, sel))
    ctx.outcome(np.round(want, 4))
    if method != 'cvx':
        ctx.close('unweighted', fitter.fit(method='lstsq', standard_weights=False), want, 2e-5)
        ctx.close('hedge', fitter.fit(method='lstsq', beta=0.1), want, 2e-5)
        ctx.step(2)


def run_split(case, ctx):
    """How results are grouped and ordered does not matter."""
    _, n, lay, sel, parts, perm, mode = case
    circ = build(n, lay, 'gen', .2)
    circs = state_tomography_circuits(circ, sel)
    want = ref_rho(circ, sel)
    m = len(circs)
    groups = [[] for _ in range(parts)]
    for i, c in enumerate(circs):
        groups[(i * 7 // 3) % parts].append(c)
    groups = [groups[p] for p in perm if p < parts and groups[p]]
    order = sorted(range(m), key=lambda i: ((i * 5 + 3 * perm[0]) % m, i))
    listed = [circs[i] for i in order]
    results = [qsim.make_result([experiment(c) for c in g]) for g in groups]
    dup = 1
    if mode == 'list':
        fitter = StateTomographyFitter(results, listed)
    elif mode == 'names':
        fitter = StateTomographyFitter(results if parts > 1 else results[0],
                                       [c.name for c in listed])
    elif mode in ('calls', 'calls_names'):
        conv = (lambda c: c) if mode == 'calls' else (lambda c: c.name)
        fitter = StateTomographyFitter(results[0], [conv(c) for c in groups[0]])
        for g, r in list(zip(groups, results))[1:]:
            fitter.add_data([r], [conv(c) for c in g])
    else:
        # the same circuits run twice: counts are added
        fitter = StateTomographyFitter(results, listed)
        again = qsim.make_result([experiment(c, SHOTS // 4) for c in circs])
        dup = 1.25
        if mode == 'dup_same':
            again = qsim.make_result([experiment(c) for c in circs])
            dup = 2
        if mode == 'dup_list':
            fitter = StateTomographyFitter(results + [again], listed)
        else:
            fitter.add_data([again], listed)
    ctx.step(parts + 1)
    labels = sorted(itertools.product('XYZ', repeat=len(sel)))
    ctx.equal('labels', sorted(fitter.data), labels)
    for lab, c in zip(itertools.product('XYZ', repeat=len(sel)), circs):
        marg = {}
        for key, val in counts_of(c).items():
            key = key[len(key) - len(sel):]
            marg[key] = marg.get(key, 0) + val
        got = fitter.data[lab]
        for key in set(marg) | set(got):
            ctx.check('data', abs(got.get(key, 0) - dup * marg.get(key, 0)) <= 2 ** len(sel) * 4,
                      (lab, key, got, marg))
    ctx.close('state', fitter.fit(), want, 2e-5)


def run_shots(case, ctx):
    """The numbers of shots of the settings do not have to agree."""
    _, n, sel, kind = case
    circ = build(n, 'mid', 'gen', .2)
    circs = state_tomography_circuits(circ, sel)
    res = qsim.make_result([experiment(c, SHOTS >> (6 * ((i + kind) % 3)))
                            for i, c in enumerate(circs)])
    fitter = StateTomographyFitter(res, circs)
    ctx.step()
    for kw in ({}, dict(standard_weights=False), dict(beta=0.), dict(beta=3.)):
        if kw.get('beta') == 0.:
            continue
        ctx.close('state', fitter.fit(method='lstsq', **kw), ref_rho(circ, sel), 5e-3, kw)
        ctx.step()


def run_custom(case, ctx):
    """A custom, non-orthogonal but complete measurement basis."""
    angles = {'A': (0., 0.), 'B': (1.1, .3), 'C': (1.7, 1.9), 'D': (.8, -2.2)}

    def mcirc(op, qubit, clbit):
        c = QuantumCircuit(qubit.register, clbit.register)
        th, ph = angles[op]
        c.rz(-ph, qubit)
        c.ry(-th, qubit)
        c.measure(qubit, clbit)
        return c

    def mmat(label, outcome):
        th, ph = angles[label]
        v = np.array([np.cos(th / 2), np.exp(1j * ph) * np.sin(th / 2)])
        if int(outcome):
            v = np.array([-np.exp(-1j * ph) * np.sin(th / 2), np.cos(th / 2)])
        return np.outer(v, v.conj())
    basis = TomographyBasis('c', measurement=(tuple('ABCD'), mcirc, mmat))
    for n in (1, 2):
        for sel in itertools.permutations(range(n)):
            circ = build(n, 'one', 'gen', .3)
            circs = state_tomography_circuits(circ, list(sel), meas_labels=tuple('ABCD'),
                                              meas_basis=basis)
            res = qsim.make_result([experiment(c) for c in circs])
            fitter = StateTomographyFitter(res, circs, meas_basis=basis)
            ctx.step(2)
            ctx.close('custom_state', fitter.fit(), ref_rho(circ, sel), 1e-4)


def paulis(label, outcome):
    p = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]),
         'Z': np.diag([1, -1])}[label]
    return (np.eye(2) + (-1) ** outcome * p) / 2


def simplex(v):
    """Nearest point with the same sum and non-negative entries."""
    tot = v.sum()
    u = np.sort(v)[::-1]
    css = np.cumsum(u) - tot
    k = np.nonzero(u - css / np.arange(1, len(u) + 1) > 0)[0][-1]
    return np.maximum(v - css[k] / (k + 1), 0)


def count_table(n, kind, tab):
    labels = list(itertools.product('XYZ', repeat=n))
    table = {}
    if isinstance(kind, list):
        for lab, (a, b) in zip(labels, kind):
            table[lab] = {'0': a, '1': b}
    elif tab == 'mixed':
        for i, lab in enumerate(labels):
            table[lab] = {format(k, '0%db' % n): ((i + 1) * (k + kind + 2) + kind * k * k) % 5 // 2
                          for k in range(2 ** n)}
            table[lab][format((i * kind + i) % 2 ** n, '0%db' % n)] += \
                1 + 9 * ((i + kind) % 4 == 0)
    elif n == 1:
        for lab, z in zip(labels, tab):
            table[lab] = {'0': kind - z, '1': z}
    else:
        for i, lab in enumerate(labels):
            cnt = {'00': 0, '01': 0, '10': 0, '11': 0}
            if lab[0] == lab[1]:
                out = tab['XYZ'.index(lab[0])]
            else:
                out = (i * (2 * kind + 1) + kind) % 4
            cnt[format(out, '02b')] += 3
            cnt[format((out + kind) % 4, '02b')] += kind % 3
            table[lab] = cnt
    return labels, {k: {kk: vv for kk, vv in v.items() if vv} for k, v in table.items()}


def linear_system(n, labels, table, weights, beta=.5):
    rows, vals, wts = [], [], []
    for lab in labels:
        shots = sum(table[lab].values())
        zero = len(table[lab]) < 2 ** n
        hedge = .5 if beta == 0 and zero else beta
        for out in itertools.product((0, 1), repeat=n):
            op = np.eye(1)
            for lb, o in zip(lab, out):
                op = np.kron(paulis(lb, o), op)
            cnt = table[lab].get(''.join(map(str, reversed(out))), 0)
            p = (cnt + hedge) / (shots + 2 ** n * hedge)
            rows.append(op.T.reshape(-1))
            vals.append(cnt / shots)
            wts.append(np.sqrt(shots / (p * (1 - p))) if weights else 1.)
    w = np.array(wts)
    return np.array(rows) * w[:, None], np.array(vals) * w


def nearest_state(mat):
    mat = (mat + mat.conj().T) / 2
    ev, vec = np.linalg.eigh(mat)
    return vec @ np.diag(simplex(ev)) @ vec.conj().T


def reference(n, labels, table, weights, beta=.5, psd=True):
    """Weighted least squares, then the nearest positive matrix of the same trace."""
    rows, vals = linear_system(n, labels, table, weights, beta)
    mat = np.linalg.lstsq(rows, vals, rcond=None)[0].reshape(2 ** n, 2 ** n)
    rho = nearest_state(mat) if psd else mat
    return rho / np.trace(rho)


def run_convex(case, ctx):
    """The convex fit is the best weighted fit among all states."""
    _, n, kind, tab = case
    labels, table = count_table(n, kind, tab)
    res = qsim.make_result([(str(lab), cnt, dict(width=n)) for lab, cnt in table.items()])
    fitter = StateTomographyFitter(res, [str(lab) for lab in labels])
    for weights in (True, False):
        got = fitter.fit(method='cvx', standard_weights=weights)
        ctx.step()
        rows, vals = linear_system(n, labels, table, weights)
        scale = np.linalg.norm(rows, 2)
        rows, vals = rows / scale, vals / scale
        # projected gradient: the constraint set is the states
        rho = np.eye(2 ** n) / 2 ** n
        prev, mom = rho, 1.
        for _ in range(20000):
            nxt = (1 + np.sqrt(1 + 4 * mom * mom)) / 2
            y = rho + (mom - 1) / nxt * (rho - prev)
            grad = (rows.conj().T @ (rows @ y.reshape(-1) - vals)).reshape(y.shape)
            new = y - grad
            new = nearest_state(new - np.eye(2 ** n) * (np.trace(new).real - 1) / 2 ** n)
            prev, rho, mom = rho, new, nxt
            if np.abs(rho - prev).max() < 1e-12:
                break
        ctx.close('convex_estimate', got, rho, 2e-2, (weights, table))
        val = np.linalg.norm(rows @ got.reshape(-1) - vals)
        best = np.linalg.norm(rows @ rho.reshape(-1) - vals)
        ctx.check('convex_optimal', val <= best + 2e-3 * max(np.linalg.norm(vals), best),
                  (val, best, table))
        ctx.outcome(np.round(rho, 3))


def run_truncate(case, ctx):
    """Eigenvalues below the threshold become zero and the trace is kept."""
    i = case[1]
    for dim in (2, 3, 4):
        vals = [(.6, .3, .1, 0.), (.9, .3, -.1, -.1), (1.2, .1, -.15, -.15), (.5, .4, .06, .04),
                (.25, .25, .25, .25), (.7, .2, .05, .05)][i][:dim]
        ang = np.arange(dim * dim).reshape(dim, dim) * .37
        gen = np.sin(ang) + 1j * np.cos(1.7 * ang)
        vec = np.linalg.qr(gen)[0]
        mat = vec @ np.diag(vals) @ vec.conj().T
        for eps in (0, .01, .07, .2):
            got = make_positive_semidefinite(mat, **({} if eps == 0 and i % 2 else
                                                     {'epsilon': eps}))
            ctx.step()
            ctx.close('truncate_trace', np.trace(got), sum(vals), 1e-9, (vals, eps))
            want = sorted(vals)
            for j in range(dim):   # from the smallest: cut, share among the larger ones
                if want[j] < eps:
                    cut, want[j] = want[j], 0.
                    for k in range(j + 1, dim):
                        want[k] += cut / (dim - j - 1)
            if sum(want) < sum(vals) - 1e-9:
                continue
            ctx.close('truncate', got, nearest_order(vec, vals, want), 1e-9, (vals, eps))
    ctx.raises('epsilon', ValueError, lambda: make_positive_semidefinite(np.eye(2), epsilon=-1))


def nearest_order(vec, vals, want):
    order = sorted(range(len(vals)), key=lambda j: vals[j])
    new = np.zeros(len(vals))
    for pos, j in enumerate(order):
        new[j] = want[pos]
    return vec @ np.diag(new) @ vec.conj().T


def run_phys(case, ctx):
    _, n, kind, tab, weights = case
    labels, table = count_table(n, kind, tab)
    res = qsim.make_result([(str(lab), cnt, dict(width=n)) for lab, cnt in table.items()])
    fitter = StateTomographyFitter(res, [str(lab) for lab in labels])
    got = fitter.fit(standard_weights=weights)
    ctx.step(2)
    ctx.close('hermitian', got, got.conj().T, 1e-9)
    ctx.close('trace', np.trace(got), 1, 1e-9)
    ctx.check('psd', np.min(np.linalg.eigvalsh(got)) > -1e-9, np.linalg.eigvalsh(got))
    rho = reference(n, labels, table, weights)
    ctx.close('estimate', got, rho, 1e-6, table)
    raw = reference(n, labels, table, weights, psd=False)
    if np.abs(raw).max() < 1e3:
        base = TomographyFitter(res, [str(lab) for lab in labels])
        ctx.close('unconstrained', base.fit(method='lstsq', standard_weights=weights, psd=False,
                                            trace=1), raw, 1e-6, table)
        ctx.close('requested_trace', base.fit(method='lstsq', standard_weights=weights, trace=3),
                  3 * rho, 1e-6, table)
        ctx.step(2)
    if weights and n < 4:
        for beta in (0, .1, 2.):
            ctx.close('hedged', fitter.fit(method='lstsq', beta=beta),
                      reference(n, labels, table, True, beta), 1e-6, (beta, table))
            ctx.step()
    ctx.outcome(np.round(rho, 5))


def run_reject(case, ctx):
    circ = build(1, 'one', 'gen', 0.)
    circs = state_tomography_circuits(circ, [0])
    res = qsim.make_result([experiment(c) for c in circs[:2]])
    full = qsim.make_result([experiment(c) for c in circs])
    ctx.step()
    if case[1] == 0:
        ctx.raises('missing_result', QiskitError, lambda: StateTomographyFitter(res, circs))
    elif case[1] == 1:
        ctx.raises('missing_result_names', QiskitError,
                   lambda: StateTomographyFitter(res, [c.name for c in circs]))
    elif case[1] == 2:
        ctx.raises('no_circuits', QiskitError, lambda: StateTomographyFitter(full, []))
    elif case[1] == 3:
        ctx.raises('bad_method', QiskitError,
                   lambda: StateTomographyFitter(full, circs).fit(method='nope'))
    else:
        ctx.raises('bad_basis', QiskitError,
                   lambda: TomographyFitter(full, circs, meas_basis='SIC'))
        ctx.raises('bad_beta', ValueError,
                   lambda: StateTomographyFitter(full, circs).fit(beta=-1))
