"""C08: tomography circuits."""
import itertools
from ast import literal_eval

import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.verification.tomography import (state_tomography_circuits,
                                                  process_tomography_circuits)
from qiskit.ignis.verification.tomography.basis import (tomography_circuit_tuples,
                                                        TomographyBasis, PauliBasis, SICBasis)

from vlib import qsim

ID = 'C08'
BOUNDS = {
    'quick': 'state: every ordered selection of 1-3 of 3 qubits x every measurement label x a '
             'spanning set of product input states and entangled inputs; process: every ordered '
             'pair of prepared/measured selections of 1-2 of 3 qubits x all label pairs for '
             'Pauli (4 and 6 state) and SIC preparations; int/qubit/register specifications, '
             'several quantum and classical registers, mid-circuit measurements, custom bases '
             'and label lists (also 3-qubit), bodies ending in a measurement, registers given '
             'twice and other rejected specifications; 12-qubit registers with two-digit qubit '
             'numbers',
    'thorough': 'as quick with 4 qubits and full 6-state product inputs on 2 and 3 qubits',
}
ASSUMPTIONS = ['the tomography register is the first classical register of the circuit, as the '
               'code comments and the fitters state']
S = 1 / np.sqrt(2)
R2 = np.sqrt(2.)
PREP = {'Zp': [1, 0], 'Zm': [0, 1], 'Xp': [S, S], 'Xm': [S, -S], 'Yp': [S, 1j * S],
        'Ym': [S, -1j * S], 'S0': [1, 0],
        'S1': [1 / np.sqrt(3), np.sqrt(2 / 3)],
        'S2': [1 / np.sqrt(3), np.sqrt(2 / 3) * np.exp(-2j * np.pi / 3)],
        'S3': [1 / np.sqrt(3), np.sqrt(2 / 3) * np.exp(2j * np.pi / 3)],
        'A': [np.cos(.3), np.sin(.3)], 'B': [np.cos(.9), np.sin(.9) * np.exp(.4j)]}
PREP = {k: np.array(v, dtype=complex) for k, v in PREP.items()}
ROT = {  # label -> (state read as 0, state read as 1)
    'X': (PREP['Xp'], PREP['Xm']), 'Y': (PREP['Yp'], PREP['Ym']), 'Z': (PREP['Zp'], PREP['Zm']),
    'M': (PREP['A'], np.array([-np.sin(.3), np.cos(.3)], dtype=complex))}
SIX = ['Zp', 'Zm', 'Xp', 'Xm', 'Yp', 'Ym']
FOUR = ['Zp', 'Zm', 'Xp', 'Yp']


def put(circ, state, q):
    """Gates preparing a named state on qubit q (reference side)."""
    v = PREP[state]
    theta = 2 * np.arctan2(abs(v[1]), abs(v[0]))
    circ.ry(theta, q)
    circ.rz(np.angle(v[1]) - np.angle(v[0]), q)


def base_circuit(kind, n):
    """A circuit on n qubits over one of several register layouts."""
    if kind == 'one':
        return QuantumCircuit(QuantumRegister(n, 'q'))
    if kind == 'two':
        return QuantumCircuit(QuantumRegister(1, 'zz'), QuantumRegister(n - 1, 'a'))
    if kind == 'creg':
        return QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(2, 'old'))
    if kind == 'cregs':
        return QuantumCircuit(QuantumRegister(n - 1, 'b'), QuantumRegister(1, 'a'),
                              ClassicalRegister(1, 'z'), ClassicalRegister(n, 'aa'))
    raise ValueError(kind)


def body(circ, kind, names=None):
    """Append the circuit under tomography."""
    qs = circ.qubits
    n = len(qs)
    if kind == 'prod':
        for q, s in zip(qs, names):
            put(circ, s, q)
    elif kind == 'ent':
        for i, q in enumerate(qs):
            circ.ry(.3 + .41 * i, q)
            circ.rz(.7 - .23 * i, q)
        for i in range(n - 1):
            circ.cx(qs[i], qs[i + 1])
            circ.rx(.5 + .2 * i, qs[i])
        if n > 2:
            circ.cx(qs[-1], qs[0])
        circ.s(qs[0])
    elif kind == 'mid':
        body(circ, 'ent')
        for i, c in enumerate(circ.clbits):
            circ.measure(qs[i % n], c)
            circ.rx(.8 + .1 * i, qs[i % n])
            if n > 1:
                circ.cx(qs[i % n], qs[(i + 1) % n])
    elif kind == 'end':   # measurements are the last operations
        body(circ, 'ent')
        circ.barrier()
        for i, c in enumerate(circ.clbits):
            circ.measure(qs[(i + 1) % n], c)
    elif kind == 'gate':
        circ.ry(.4, qs[0])
        circ.append(sub(n), list(reversed(qs)))
    elif kind == 'none':
        pass


def sub(n):
    """A composite gate."""
    c = QuantumCircuit(n, name='sub')
    c.h(0)
    for i in range(n - 1):
        c.cx(i, i + 1)
        c.t(i + 1)
    return c.to_gate()


def cases(tier):
    big = tier == 'thorough'
    top = 4 if big else 3
    for n in range(1, top + 1):
        states = SIX if n <= 2 or (big and n == 3) else FOUR
        if n == 4:
            states = FOUR[:3]
        for names in itertools.product(states, repeat=n):
            yield ['state', n, 'one', 'prod', list(names), list(range(n)), 'Pauli', 'int']
        if n > 1:
            yield ['state', n, 'one', 'prod', ['Xp', 'Ym', 'Zm', 'Yp'][:n],
                   list(reversed(range(n))), 'Pauli', 'int']
        for sel in qsim.ordered_subsets(range(n), range(1, n + 1)):
            for lay in ('one', 'two', 'creg', 'cregs'):
                if n == 1 and lay in ('two', 'cregs'):
                    continue
                for b in ('ent', 'mid', 'gate') + (('end',) if 'creg' in lay else ()):
                    for spec in ('int', 'qubit') if b == 'ent' else ('int',):
                        yield ['state', n, lay, b, None, list(sel), 'Pauli', spec]
            for labels in (['Z'], ['Y', 'X'], 'custom', 'list', 'callable', 'basisobj'):
                yield ['state', n, 'creg', 'ent', None, list(sel), labels, 'int']
        for lay in ('one', 'two', 'cregs'):
            if n > 1 or lay == 'one':
                yield ['regs', n, lay]
    for n in (1, 2, 3):
        for k in (1, 2) + ((3,) if big else ()):
            if k > n:
                continue
            msels = list(itertools.permutations(range(n), k))
            for ms in msels:
                for ps in [None] + msels:
                    for basis in ('Pauli', 'SIC', 'six', 'custom', 'list', 'callable'):
                        if basis in ('six', 'callable') and (k > 1 and n > 2) and not big:
                            continue
                        if k == 3 and basis not in ('Pauli', 'SIC'):
                            continue
                        for b in ('none', 'ent') + (('mid',) if basis == 'Pauli' else ()) + \
                                (('end',) if basis == 'Pauli' and (ps is None or ps == msels[-1])
                                 else ()):
                            yield ['proc', n, 'cregs' if b in ('mid', 'end') and n > 1 else
                                   ('creg' if b in ('mid', 'end') else ('one' if n < 2 else 'two')),
                                   b, list(ms), list(ps) if ps else None, basis]
                    for spec in ('qubit', 'mixed', 'regs'):
                        yield ['proc', n, 'one' if n < 2 else 'two', 'ent', list(ms),
                               list(ps) if ps else None, 'Pauli', spec]
    for ms in itertools.permutations(range(3)):
        for ps in ([0, 1, 2], [1, 2, 0], None):
            yield ['proc', 3, 'two', 'ent', list(ms), ps, 'list3']
    for sel in ([10], [10, 2], [1, 11], [11, 0, 10]):
        yield ['state', 12, 'one', 'ent', None, sel, 'Pauli', 'int']
        yield ['state', 12, 'two', 'ent', None, sel, ['Y', 'X'], 'qubit']
    for ms, ps in (([10, 2], None), ([11], [1]), ([1], [10]), ([2, 11], [10, 1])):
        yield ['proc', 12, 'two', 'ent', ms, ps, 'Pauli']
    yield ['matrix']
    yield ['tuples']
    for i in range(len(REJECT)):
        yield ['reject', i]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def custom_basis():
    def mcirc(op, qubit, clbit):
        c = QuantumCircuit(qubit.register, clbit.register)
        if op == 'M':
            c.ry(-.6, qubit)
        elif op == 'X':
            c.h(qubit)
        c.measure(qubit, clbit)
        return c

    def pcirc(op, qubit):
        c = QuantumCircuit(qubit.register)
        put(c, op, qubit)
        return c

    def mmat(label, outcome):
        v = ROT[label][int(outcome)]
        return np.outer(v, v.conj())

    def pmat(label):
        return np.outer(PREP[label], PREP[label].conj())
    return TomographyBasis('cust', measurement=(('M', 'X'), mcirc, mmat),
                           preparation=(('A', 'B'), pcirc, pmat)), mcirc, pcirc


def ref_joint(circ, sel, mlabel, prep=None, psel=None):
    """Exact joint distribution {(tomography bits by position, circuit clbits): p}."""
    ref = circ.copy()
    ref.data = []
    cr = ClassicalRegister(len(sel), 'tomo_ref')
    ref.add_register(cr)
    if prep is not None:
        for s, q in zip(prep, psel):
            put(ref, s, q)
    for inst, qa, ca in circ.data:
        ref.append(inst, qa, ca)
    for lab, q in zip(mlabel, sel):
        v0, v1 = ROT[lab]
        u = np.array([v0.conj(), v1.conj()])
        ref.unitary(u, [q])
    for j, q in enumerate(sel):
        ref.measure(q, cr[j])
    ncl = circ.num_clbits
    out = {}
    for bits, p in qsim.run(ref).items():
        key = (bits[ncl:], bits[:ncl])
        out[key] = out.get(key, 0) + p
    return out


def got_joint(tomo, circ, k):
    """Joint distribution of a generated circuit."""
    idx = {c: i for i, c in enumerate(tomo.clbits)}
    old = [idx[c] for c in circ.clbits]
    new = [i for i in range(tomo.num_clbits) if i not in old]
    out = {}
    for bits, p in qsim.run(tomo).items():
        key = (tuple(bits[i] for i in new), tuple(bits[i] for i in old))
        out[key] = out.get(key, 0) + p
    return out, new


def cmp_circ(ctx, tomo, circ, sel, mlab, prep=None, psel=None):
    ctx.check('same_qubits', set(tomo.qubits) == set(circ.qubits), (tomo.qubits, circ.qubits))
    got, new = got_joint(tomo, circ, len(sel))
    ctx.equal('first_register', new, list(range(len(sel))), 'tomography clbits')
    want = ref_joint(circ, sel, mlab, prep, psel)
    ctx.step()
    ctx.check('distribution', qsim.same_dist(got, want, 1e-8), (tomo.name, got, want))
    ctx.outcome(sorted((str(k), round(v, 6)) for k, v in got.items()))


def run_state(case, ctx):
    _, n, lay, b, names, sel, labels, spec = case
    circ = base_circuit(lay, n)
    body(circ, b, names)
    before = [(i.name, list(i.params), list(qa), list(ca)) for i, qa, ca in circ.data]
    arg = list(sel) if spec == 'int' else [circ.qubits[i] for i in sel]
    k = len(sel)
    kw = {}
    single = ('X', 'Y', 'Z')
    want = None
    if isinstance(labels, list):
        kw = dict(meas_labels=tuple(labels))
        single = tuple(labels)
    elif labels == 'custom':
        basis = custom_basis()[0]
        kw = dict(meas_labels=('M', 'X'), meas_basis=basis)
        single = ('M', 'X')
    elif labels == 'callable':
        kw = dict(meas_labels=('X', 'M'), meas_basis=custom_basis()[1])
        single = ('X', 'M')
    elif labels == 'basisobj':
        kw = dict(meas_basis=PauliBasis)
    elif labels == 'list':
        want = [tuple('XYZ'[(i * i + j) % 3] for i in range(k)) for j in range(3)]
        kw = dict(meas_labels=list(want))
    if want is None:
        want = list(itertools.product(single, repeat=k))
    circs = state_tomography_circuits(circ, arg, **kw)
    ctx.step()
    after = [(i.name, list(i.params), list(qa), list(ca)) for i, qa, ca in circ.data]
    ctx.check('input_unmodified', before == after and circ.num_clbits == {
        'one': 0, 'two': 0, 'creg': 2, 'cregs': 1 + n}[lay], 'circuit changed')
    ctx.equal('label_set', sorted(literal_eval(c.name) for c in circs), sorted(want))
    for c in circs:
        cmp_circ(ctx, c, circ, sel, literal_eval(c.name))


def run_regs(case, ctx):
    """Measured qubits given as registers and mixtures."""
    _, n, lay = case
    circ = base_circuit(lay, n)
    body(circ, 'ent')
    idx = {q: i for i, q in enumerate(circ.qubits)}
    specs = [(r, [idx[q] for q in r]) for r in circ.qregs]
    specs += [([r], [idx[q] for q in r]) for r in circ.qregs]
    for perm in itertools.permutations(circ.qregs):
        specs.append((list(perm), [idx[q] for r in perm for q in r]))
        if len(perm) > 1:
            specs.append(([perm[0]] + list(perm[1]), [idx[q] for r in perm for q in r]))
            specs.append(([perm[1][0], perm[0]],
                          [idx[perm[1][0]]] + [idx[q] for q in perm[0]]))
    for arg, sel in specs:
        ctx.state(case, sel)
        circs = state_tomography_circuits(circ, arg)
        ctx.equal('label_set', sorted(literal_eval(c.name) for c in circs),
                  sorted(itertools.product('XYZ', repeat=len(sel))))
        for c in circs:
            cmp_circ(ctx, c, circ, sel, literal_eval(c.name))
        if len(sel) == 1:
            circs = process_tomography_circuits(circ, arg)
            for c in circs:
                p, m = literal_eval(c.name)
                cmp_circ(ctx, c, circ, sel, m, p, sel)


def as_registers(circ, sel):
    """The selection with whole registers in place of their qubits where possible."""
    qs = [circ.qubits[j] for j in sel]
    out = []
    while qs:
        for reg in circ.qregs:
            if qs[:len(reg)] == list(reg):
                out.append(reg)
                qs = qs[len(reg):]
                break
        else:
            out.append(qs.pop(0))
    return out[0] if len(out) == 1 else out


def run_proc(case, ctx):
    _, n, lay, b, ms, ps, basis = case[:7]
    spec = case[7] if len(case) > 7 else 'int'
    circ = base_circuit(lay, n)
    body(circ, b)
    k = len(ms)
    pl = {'Pauli': FOUR, 'SIC': ['S0', 'S1', 'S2', 'S3'], 'six': SIX, 'custom': ['A', 'B'],
          'callable': ['B', 'A'], 'list': None, 'list3': None}[basis]
    ml = ['X', 'Y', 'Z']
    kw = {}
    if basis == 'SIC':
        kw = dict(prep_labels='SIC', prep_basis='SIC')
    elif basis == 'six':
        kw = dict(prep_labels=tuple(SIX))
    elif basis in ('custom', 'callable'):
        obj, mc, pc = custom_basis()
        kw = dict(prep_labels=tuple(pl), meas_labels=('M', 'X'),
                  prep_basis=obj if basis == 'custom' else pc,
                  meas_basis=obj if basis == 'custom' else mc)
        ml = ['M', 'X']
    if basis == 'list':
        want_p = [tuple(SIX[(i * 2 + j) % 6] for i in range(k)) for j in range(3)]
        want_m = [tuple('XYZ'[(i + j) % 3] for i in range(k)) for j in range(2)]
        kw = dict(prep_labels=list(want_p), meas_labels=list(want_m))
    elif basis == 'list3':
        want_p = [('Xp', 'Xp', 'Zm'), ('Yp', 'Zm', 'Zm'), ('Xm', 'Xm', 'Xm'), ('Ym', 'Zp', 'Ym')]
        want_m = [('X', 'X', 'Z'), ('Y', 'Z', 'Z'), ('Y', 'Y', 'Y'), ('Z', 'X', 'Z')]
        kw = dict(prep_labels=list(want_p), meas_labels=list(want_m))
    else:
        want_p = list(itertools.product(pl, repeat=k))
        want_m = list(itertools.product(ml, repeat=k))
    psel = ms if ps is None else ps
    args = [None if sel is None else list(sel) for sel in (ms, ps)]
    for i, sel in enumerate((ms, ps)):
        if sel is not None and (spec == 'qubit' or spec == 'mixed' and i == 1):
            args[i] = [circ.qubits[j] for j in sel]
        elif sel is not None and spec == 'regs':
            # a register of the circuit wherever the selection spells one out
            args[i] = as_registers(circ, sel)
    circs = process_tomography_circuits(circ, *args, **kw)
    ctx.step()
    names = [literal_eval(c.name) for c in circs]
    ctx.equal('label_set', sorted(names), sorted(itertools.product(want_p, want_m)))
    for c, (p, m) in zip(circs, names):
        cmp_circ(ctx, c, circ, ms, m, p, psel)


def run_matrix(case, ctx):
    """Basis matrices match the states and outcomes they name."""
    for basis, labs in ((PauliBasis, SIX), (SICBasis, ['S0', 'S1', 'S2', 'S3'])):
        ctx.equal('labels', sorted(basis.preparation_labels), sorted(labs))
        for lab in labs:
            ctx.close('prep_matrix', basis.preparation_matrix(lab),
                      np.outer(PREP[lab], PREP[lab].conj()), 1e-9, lab)
        q = QuantumRegister(2, 'q')
        for lab in labs:
            c = basis.preparation_circuit(lab, q[1])
            u = qsim.unitary(c)
            want = np.kron(PREP[lab], [1, 0])
            ctx.check('prep_circuit', abs(abs(np.vdot(want, u[:, 0])) - 1) < 1e-9, lab)
    ctx.equal('meas_labels', sorted(PauliBasis.measurement_labels), ['X', 'Y', 'Z'])
    for lab in 'XYZ':
        for o in (0, 1, '0', '1'):
            v = ROT[lab][int(o)]
            ctx.close('meas_matrix', PauliBasis.measurement_matrix(lab, o),
                      np.outer(v, v.conj()), 1e-9, (lab, o))
    q = QuantumRegister(1, 'q')
    c = ClassicalRegister(1, 'c')
    for f, exc in ((lambda: PauliBasis.measurement_matrix('W', 0), ValueError),
                   (lambda: PauliBasis.measurement_matrix('X', 2), ValueError),
                   (lambda: PauliBasis.preparation_matrix('X'), ValueError),
                   (lambda: PauliBasis.measurement_circuit('Q', q[0], c[0]), ValueError),
                   (lambda: PauliBasis.preparation_circuit('Q', q[0]), ValueError),
                   (lambda: PauliBasis.preparation_circuit('Zp', q), QiskitError),
                   (lambda: PauliBasis.measurement_circuit('X', q[0], c), QiskitError),
                   (lambda: SICBasis.measurement_matrix('S0', 0), QiskitError),
                   (lambda: SICBasis.measurement_circuit('S0', q[0], c[0]), QiskitError)):
        ctx.raises('invalid_label', exc, f)
    cust = custom_basis()[0]
    for lab in ('A', 'B'):
        ctx.close('custom_matrix', cust.preparation_matrix(lab),
                  np.outer(PREP[lab], PREP[lab].conj()), 1e-9)
    ctx.step(20)


def run_tuples(case, ctx):
    """The label helper lists every measurement/preparation pair exactly once."""
    q = QuantumRegister(2, 'q')
    for arg, k in ((1, 1), (2, 2), (3, 3), (q, 2), ([q[0], q[1]], 2)):
        for pl, single in (('Pauli', FOUR), (('Zp', 'Xm'), ['Zp', 'Xm']), (None, None)):
            got = tomography_circuit_tuples(arg, prep_labels=pl)
            ctx.step()
            mls = list(itertools.product('XYZ', repeat=k))
            pls = list(itertools.product(single, repeat=k)) if single else [None]
            norm = []
            for t in got:
                a, b = t
                norm.append(sorted([str(a), str(b)]))
            want = [sorted([str(m), str(p)]) for m in mls for p in pls]
            ctx.equal('pairs', sorted(norm), sorted(want))


def _two():
    c = QuantumCircuit(3)
    c.h(0)
    return c


def _dup(kind, which):
    c = _two()
    reg = c.qregs[0]
    arg = [reg, reg[1]] if which == 0 else [reg, reg]
    if kind == 'state':
        return state_tomography_circuits(c, arg)
    return process_tomography_circuits(c, arg)


REJECT = [
    (lambda: state_tomography_circuits(_two(), [0, 0]), QiskitError, 'repeated qubit'),
    (lambda: _dup('state', 0), QiskitError, 'register and its qubit'),
    (lambda: _dup('state', 1), QiskitError, 'register twice'),
    (lambda: _dup('proc', 0), QiskitError, 'register and its qubit'),
    (lambda: process_tomography_circuits(_two(), [0, 1], [2, 2]), QiskitError, 'repeated prep'),
    (lambda: process_tomography_circuits(_two(), [0, 1], [2]), QiskitError, 'length mismatch'),
    (lambda: process_tomography_circuits(_two(), [0], [1, 2]), QiskitError, 'length mismatch'),
    (lambda: state_tomography_circuits(_two(), [0], meas_basis='SIC'), QiskitError, 'SIC meas'),
    (lambda: state_tomography_circuits(_two(), [0], meas_basis='nope'), ValueError, 'bad basis'),
    (lambda: state_tomography_circuits(_two(), [0], meas_labels=('Q',)), ValueError, 'bad label'),
    (lambda: process_tomography_circuits(_two(), [0], prep_labels=('Q',)), ValueError, 'bad prep'),
    (lambda: state_tomography_circuits(_two(), [0], meas_basis=None), ValueError, 'no basis'),
    (lambda: state_tomography_circuits(_two(), [0], meas_labels='SIC'), ValueError, 'bad labels'),
]


def run_reject(case, ctx):
    fun, exc, what = REJECT[case[1]]
    ctx.step()
    ctx.raises('reject', exc, fun, what)
