"""C10: process tomography fitting."""
import itertools

import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.quantum_info import Choi
from qiskit.ignis.verification.tomography import (process_tomography_circuits,
                                                  ProcessTomographyFitter)
from qiskit.ignis.verification.tomography.basis import TomographyBasis

from vlib import qsim
from checks.c09 import CLIFF, simplex, paulis

ID = 'C10'
CASE_TIMEOUT = 400
BOUNDS = {
    'quick': 'all 24 one-qubit Cliffords x {Pauli, SIC, 6-state, custom} preparations, two-qubit '
             'entangling and product channels, channels with reset, measurement, noise through an '
             'environment qubit; every ordered prepared/measured selection of <=2 of 3 qubits; '
             'result splits <=3 in every order, names or circuits; 512+ small count tables on 1 '
             'qubit and 6 on 2 qubits for physicality; least-squares everywhere, convex fit on 1-qubit cases and '
             'two 2-qubit channels; pairs of two-digit qubit numbers of a 12-qubit register',
    'thorough': 'as quick with 4096 count tables and the convex fit on all 2-qubit channels',
}
ASSUMPTIONS = ['exact statistics are given as counts of 2^24 shots (4096 for the convex fit)',
               'the convex solver installed here is accurate to 1e-2 only']
SHOTS = 2 ** 24
FOUR = ['Zp', 'Zm', 'Xp', 'Yp']
SIX = ['Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm']


def channel(circ, kind, arg, ins):
    """The channel under test; `ins` are the qubits it acts on."""
    if kind == 'cliff':
        for g in arg:
            getattr(circ, g)(ins[0])
    elif kind == 'gen':
        for i, q in enumerate(ins):
            circ.ry(.3 + .41 * i, q)
            circ.rz(.7 - .23 * i, q)
        for a, b in zip(ins, ins[1:]):
            circ.cx(a, b)
            circ.rx(.5, a)
    elif kind == 'two':
        for g, idx in arg:
            getattr(circ, g)(*[ins[i] for i in idx])
    elif kind == 'reset':
        circ.reset(ins[0])
        circ.ry(.6, ins[0])
    elif kind == 'measure':
        circ.ry(.5, ins[0])
        circ.measure(ins[0], 0)
        circ.rx(.3, ins[0])
    elif kind == 'damp':     # amplitude damping through an environment qubit
        env = [q for q in circ.qubits if q not in ins][0]
        circ.cry(arg, ins[0], env)
        circ.cx(env, ins[0])
    elif kind == 'swap_out':   # information moves to another qubit
        other = [q for q in circ.qubits if q not in ins][0]
        circ.rx(.3, ins[0])
        circ.swap(ins[0], other)
        circ.rz(.9, other)


TWO = [[('cx', (0, 1))], [('cx', (1, 0))], [('cz', (0, 1))], [('swap', (0, 1))],
       [('h', (0,)), ('s', (1,))], [('cx', (0, 1)), ('cx', (1, 0)), ('s', (0,))],
       [('h', (1,)), ('cx', (1, 0)), ('t', (0,))], []]


def cases(tier):
    big = tier == 'thorough'
    for c in CLIFF:
        for basis in ('Pauli', 'SIC', 'six', 'custom'):
            yield ['fit', 1, 'cliff', c, [0], None, basis, 'lstsq']
    for c in CLIFF[::1 if big else 5]:
        yield ['fit', 1, 'cliff', c, [0], None, 'Pauli', 'default']
        yield ['fit', 1, 'cliff', c, [0], None, 'SIC', 'cvx']
    for t in range(len(TWO)):
        for ms in ([0, 1], [1, 0]):
            for ps in (None, [0, 1], [1, 0]):
                yield ['fit', 2, 'two', TWO[t], ms, ps, 'Pauli', 'lstsq']
        yield ['fit', 2, 'two', TWO[t], [0, 1], None, 'SIC', 'lstsq']
        if big or t in (0, 6):
            yield ['fit', 2, 'two', TWO[t], [1, 0], [0, 1], 'Pauli', 'default']
    for basis in ('Pauli', 'SIC', 'six'):
        for m in ('lstsq', 'default'):
            yield ['fit', 1, 'reset', 0, [0], None, basis, m]
            yield ['fit', 1, 'measure', 0, [0], None, basis, m]
            for ang in (.0, .7, 2., np.pi):
                yield ['fit', 2, 'damp', ang, [0], None, basis, m]
    for n in (2, 3):
        for ms in itertools.permutations(range(n), 1):
            for ps in itertools.permutations(range(n), 1):
                yield ['fit', n, 'swap_out', 0, list(ms), list(ps), 'Pauli', 'lstsq']
                yield ['fit', n, 'gen', 0, list(ms), list(ps), 'SIC', 'lstsq']
    for ms in itertools.permutations(range(3), 2):
        for ps in itertools.permutations(range(3), 2):
            if big or ms[0] != 1 or ps[0] == 2:
                yield ['fit', 3, 'gen', 0, list(ms), list(ps), 'Pauli', 'lstsq']
    for parts in (1, 2, 3):
        for perm in itertools.permutations(range(3)):
            for mode in ('list', 'calls', 'names', 'dup', 'dup_list'):
                yield ['split', parts, list(perm), mode, 1]
                if mode[:3] != 'dup' and perm[0] == 1:
                    yield ['split', parts, list(perm), mode, 2]
    for i, tab in enumerate(itertools.product(range(2), repeat=12)):
        if big or i % 8 == (i // 8) % 8:
            yield ['phys', list(tab), i % 2 == 0, 'lstsq']
        if i % (4 if big else 32) == (i // 32) % 4:
            yield ['phys', list(tab), i % 3 != 0, 'lstsq', 'few']
        if i % (64 if big else 512) == 37:
            yield ['phys', list(tab), True, 'default']
    for kind in range(24 if big else 6):
        yield ['phys2', kind, kind % 3 != 1]
    yield ['kw']
    for t in (0, 6):
        for ms, ps in (([10, 2], None), ([2, 10], [10, 2]), ([1, 11], None)):
            yield ['wide', 12, TWO[t], ms, ps]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def run_wide(case, ctx):
    """Two qubits with two-digit numbers of a large register."""
    _, n, gates, ms, ps = case
    full = QuantumCircuit(QuantumRegister(n, 'q'))
    small = QuantumCircuit(2)
    for g, idx in gates:
        getattr(full, g)(*[sorted(ms)[i] for i in idx])
        getattr(small, g)(*idx)
    circs = process_tomography_circuits(full, ms, prepared_qubits=ps)
    res = qsim.make_result([experiment(c) for c in circs])
    got = ProcessTomographyFitter(res, circs).fit(method='lstsq')
    ctx.step(2)
    pos = {q: i for i, q in enumerate(sorted(ms))}
    want = ref_choi(small, [pos[q] for q in ms], [pos[q] for q in (ps or ms)])
    ctx.close('choi', np.asarray(Choi(got).data), want, 5e-4, str(case))
    ctx.outcome(np.round(want, 3))


def make(n, kind, arg, ps):
    regs = [QuantumRegister(n, 'q')]
    if kind == 'measure':
        regs.append(ClassicalRegister(1, 'old'))
    circ = QuantumCircuit(*regs)
    ins = [circ.qubits[i] for i in ps]
    if kind == 'gen':
        ins = circ.qubits
    channel(circ, kind, arg, ins)
    return circ


def ref_choi(circ, ms, ps):
    """Choi matrix sum |i><j| (x) E(|i><j|) from prepared to measured qubits; others start in 0."""
    n = circ.num_qubits
    k = len(ms)
    dim = 2 ** k
    kraus = [np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))]
    for inst, qs, _ in qsim.instructions(circ):
        if inst.name == 'barrier':
            continue
        if inst.name in ('measure', 'reset'):
            ops = [np.diag([1, 0]), np.diag([0, 1])]
            if inst.name == 'reset':
                ops = [np.array([[1, 0], [0, 0]]), np.array([[0, 1], [0, 0]])]
        else:
            ops = [qsim.gate_matrix(inst)]
        new = []
        for mat in kraus:
            for op in ops:
                kq = len(qs)
                axes = [n - 1 - q for q in reversed(qs)]
                t = np.tensordot(np.asarray(op, dtype=complex).reshape((2,) * (2 * kq)), mat,
                                 axes=(list(range(kq, 2 * kq)), axes))
                new.append(np.moveaxis(t, list(range(kq)), axes))
        kraus = new
    choi = np.zeros((dim * dim, dim * dim), dtype=complex)
    ins = []
    for i in range(dim):
        full = 0
        for b, q in enumerate(ps):
            full |= ((i >> b) & 1) << q
        ins.append(full)
    for mat in kraus:
        cols = []
        for i in range(dim):
            v = mat[..., ins[i]]
            cols.append(np.moveaxis(v, [n - 1 - q for q in reversed(ms)], range(k))
                        .reshape(dim, -1))
        for i in range(dim):
            for j in range(dim):
                choi[i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] += cols[i] @ cols[j].conj().T
    return choi


def experiment(circ, shots=SHOTS):
    cnt = {k: int(round(p * shots)) for k, p in qsim.dist(circ).items()}
    return (circ.name, {k: v for k, v in cnt.items() if v},
            dict(width=circ.num_clbits, creg_sizes=[[r.name, r.size] for r in circ.cregs]))


ANG = {'A': (0., 0.), 'B': (1.1, .3), 'C': (1.9, 2.0), 'D': (2.1, -1.7)}


def custom():
    def pcirc(op, qubit):
        c = QuantumCircuit(qubit.register)
        c.ry(ANG[op][0], qubit)
        c.rz(ANG[op][1], qubit)
        return c

    def pmat(label):
        th, ph = ANG[label]
        v = np.array([np.cos(th / 2), np.exp(1j * ph) * np.sin(th / 2)])
        return np.outer(v, v.conj())
    return TomographyBasis('c', preparation=(tuple('ABCD'), pcirc, pmat))


def generate(circ, ms, ps, basis):
    kw, fkw = {}, {}
    if basis == 'SIC':
        kw = dict(prep_labels='SIC', prep_basis='SIC')
        fkw = dict(prep_basis='SIC')
    elif basis == 'six':
        kw = dict(prep_labels=tuple(SIX), prep_basis='Pauli')
    elif basis == 'custom':
        obj = custom()
        kw = dict(prep_labels=tuple('ABCD'), prep_basis=obj)
        fkw = dict(prep_basis=obj)
    return process_tomography_circuits(circ, list(ms), ps and list(ps), **kw), fkw


def physical(ctx, got, dim, tol, tp):
    ctx.check('type', isinstance(got, Choi), type(got))
    mat = got.data
    ctx.close('hermitian', mat, mat.conj().T, tol)
    ctx.close('trace', np.trace(mat), dim, tol)
    ctx.check('psd', np.min(np.linalg.eigvalsh((mat + mat.conj().T) / 2)) > -tol)
    if tp:
        red = np.trace(mat.reshape(dim, dim, dim, dim), axis1=1, axis2=3)
        ctx.close('trace_preserving', red, np.eye(dim), tol)


def run_fit(case, ctx):
    _, n, kind, arg, ms, ps, basis, method = case
    psel = ms if ps is None else ps
    circ = make(n, kind, arg, psel)
    circs, fkw = generate(circ, ms, ps, basis)
    # extreme weights are beyond the accuracy of the convex solver: fewer shots there
    res = qsim.make_result([experiment(c, SHOTS if method == 'lstsq' else 4096) for c in circs])
    fitter = ProcessTomographyFitter(res, circs, **fkw)
    got = fitter.fit() if method == 'default' else fitter.fit(method=method)
    ctx.step(2)
    want = ref_choi(circ, ms, psel)
    tol = 1e-4 if method == 'lstsq' else 5e-2
    ctx.close('choi', got.data, want, tol)
    physical(ctx, got, 2 ** len(ms), 1e-6 if method == 'lstsq' else 1e-2, method != 'lstsq')
    ctx.outcome(np.round(want, 4))
    if method == 'lstsq':
        ctx.close('unweighted', fitter.fit(method='lstsq', standard_weights=False).data, want,
                  1e-4)
        # reordering the data changes nothing
        res2 = qsim.make_result([experiment(c) for c in circs[::-1]])
        ctx.close('order', ProcessTomographyFitter(res2, circs[::-1], **fkw)
                  .fit(method='lstsq').data, want, 1e-4)
        ctx.step(2)


def run_split(case, ctx):
    _, parts, perm, mode, k = case
    circ = make(k + 1, 'gen', 0, list(range(k)))
    ms, ps = (([1], [0]) if k == 1 else ([2, 0], [1, 2]))
    circs, _ = generate(circ, ms, ps, 'Pauli')
    want = ref_choi(circ, ms, ps)
    groups = [[] for _ in range(parts)]
    for i, c in enumerate(circs):
        groups[(i * 7 // 3) % parts].append(c)
    groups = [groups[p] for p in perm if p < parts]
    results = [qsim.make_result([experiment(c) for c in g]) for g in groups]
    listed = circs[::-1] if perm[0] == 2 else circs
    if mode == 'list':
        fitter = ProcessTomographyFitter(results, listed)
    elif mode == 'names':
        fitter = ProcessTomographyFitter(results, [c.name for c in listed])
    elif mode == 'calls':
        fitter = ProcessTomographyFitter(results[0], groups[0])
        for r, g in list(zip(results, groups))[1:]:
            fitter.add_data([r], g)
    elif mode == 'dup_list':
        extra = qsim.make_result([experiment(c) for c in circs])
        fitter = ProcessTomographyFitter([extra] + results, listed)
        for c, lab in zip(circs, itertools.product(FOUR, 'XYZ')):
            one = experiment(c)[1]
            ctx.equal('added_counts', dict(fitter.data[((lab[0],), (lab[1],))]),
                      {key: 2 * v for key, v in one.items()}, lab)
    else:
        fitter = ProcessTomographyFitter(results, listed)
        fitter.add_data([qsim.make_result([experiment(c, SHOTS // 4) for c in circs])], listed)
    ctx.step(parts + 1)
    ctx.equal('labels', sorted(fitter.data), sorted(itertools.product(
        itertools.product(FOUR, repeat=k), itertools.product('XYZ', repeat=k))))
    ctx.close('choi', fitter.fit(method='lstsq').data, want, 1e-4)


PST = {'Zp': np.diag([1, 0]), 'Zm': np.diag([0, 1]), 'Xp': np.ones((2, 2)) / 2,
       'Yp': np.array([[1, -1j], [1j, 1]]) / 2}


def run_phys(case, ctx):
    """Arbitrary one-qubit count tables: outcome of each of the 12 settings."""
    _, tab, weights, method = case[:4]
    few = len(case) > 4
    settings = list(itertools.product(FOUR, 'XYZ'))
    table = {}
    for i, (s, o) in enumerate(zip(settings, tab)):
        cnt = {'0': 0, '1': 0}
        if few:    # one or two shots, rarely more
            cnt[str(o)] += 1 + 6 * (i % 5 == 2)
            cnt[str(1 - o)] += (i + o) % 3 == 0
        else:
            cnt[str(o)] += 3 + i % 2
            cnt[str(1 - o)] += (i * i) % 3
        table[s] = {k: v for k, v in cnt.items() if v}
    names = {s: str(((s[0],), (s[1],))) for s in settings}
    res = qsim.make_result([(names[s], table[s], dict(width=1)) for s in settings])
    fitter = ProcessTomographyFitter(res, [names[s] for s in settings])
    ctx.step(2)
    if method == 'default':
        got = fitter.fit(standard_weights=weights)
        physical(ctx, got, 2, 1e-2, True)
        return
    got = fitter.fit(method='lstsq', standard_weights=weights)
    physical(ctx, got, 2, 1e-8, False)
    rows, vals, wts = [], [], []
    for s in settings:
        shots = sum(table[s].values())
        for o in (0, 1):
            # Pr = tr[ C (rho^T (x) P) ]
            op = np.kron(PST[s[0]].T, paulis(s[1], o))
            cnt = table[s].get(str(o), 0)
            p = (cnt + .5) / (shots + 1)
            rows.append(op.T.reshape(-1))
            vals.append(cnt / shots)
            wts.append(np.sqrt(shots / (p * (1 - p))) if weights else 1.)
    w = np.array(wts)
    mat = np.linalg.lstsq(np.array(rows) * w[:, None], np.array(vals) * w,
                          rcond=None)[0].reshape(4, 4)
    mat = (mat + mat.conj().T) / 2
    ev, vec = np.linalg.eigh(mat)
    want = vec @ np.diag(simplex(ev)) @ vec.conj().T
    want = 2 * want / np.trace(want)
    ctx.close('estimate', got.data, want, 1e-6)
    ctx.outcome(np.round(want, 5))


def run_phys2(case, ctx):
    """Inconsistent count tables of a two-qubit process."""
    _, kind, weights = case
    preps = list(itertools.product(FOUR, repeat=2))
    meas = list(itertools.product('XYZ', repeat=2))
    table = {}
    for i, (p, m) in enumerate(itertools.product(preps, meas)):
        cnt = {format(o, '02b'): ((i + 2) * (o + 1 + kind) + (kind + 1) * o * o) % 7 // 2
               for o in range(4)}
        cnt[format((i * (kind + 1) + i // 4) % 4, '02b')] += 2 + 5 * (i % 3 == 0)
        table[(p, m)] = {o: v for o, v in cnt.items() if v}
    names = [str(s) for s in table]
    res = qsim.make_result([(str(s), cnt, dict(width=2)) for s, cnt in table.items()])
    fitter = ProcessTomographyFitter(res, names)
    for psd, beta in ((True, .5), (False, .5), (True, 2.)):
        kw = {} if psd else dict(psd=False)
        got = fitter.fit(method='lstsq', standard_weights=weights, beta=beta, **kw)
        ctx.step()
        if psd:
            physical(ctx, got, 4, 1e-8, False)
        rows, vals, wts = [], [], []
        for (p, m), cnts in table.items():
            shots = sum(cnts.values())
            for o in range(4):
                op = np.kron(np.kron(PST[p[1]], PST[p[0]]).T,
                             np.kron(paulis(m[1], o >> 1), paulis(m[0], o & 1)))
                cnt = cnts.get(format(o, '02b'), 0)
                pr = (cnt + beta) / (shots + 4 * beta)
                rows.append(op.T.reshape(-1))
                vals.append(cnt / shots)
                wts.append(np.sqrt(shots / (pr * (1 - pr))) if weights else 1.)
        w = np.array(wts)
        mat = np.linalg.lstsq(np.array(rows) * w[:, None], np.array(vals) * w,
                              rcond=None)[0].reshape(16, 16)
        if psd:
            mat = (mat + mat.conj().T) / 2
            ev, vec = np.linalg.eigh(mat)
            mat = vec @ np.diag(simplex(ev)) @ vec.conj().T
        ctx.close('estimate', got.data, 4 * mat / np.trace(mat), 1e-6, (psd, beta))
    ctx.outcome(np.round(mat, 4))
    if kind < 2:
        got = fitter.fit(method='cvx', standard_weights=weights)
        ctx.step()
        physical(ctx, got, 4, 1e-2, True)


def run_kw(case, ctx):
    from qiskit import QiskitError
    circ = make(1, 'gen', 0, [0])
    circs, _ = generate(circ, [0], None, 'Pauli')
    fitter = ProcessTomographyFitter(qsim.make_result([experiment(c) for c in circs]), circs)
    ctx.step()
    ctx.raises('bad_method', QiskitError, lambda: fitter.fit(method='nope'))
    ctx.raises('missing', QiskitError, lambda: ProcessTomographyFitter(
        qsim.make_result([experiment(c) for c in circs[1:]]), circs))
    ctx.close('psd_off', fitter.fit(method='lstsq', psd=False).data, ref_choi(circ, [0], [0]),
              1e-4)
