"""C13: CNOT-dihedral group elements."""
import itertools

import numpy as np
from numpy.random import RandomState
from qiskit import QiskitError, QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import library as lib
from qiskit.quantum_info import Pauli, ScalarOp, Operator
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
from qiskit.ignis.verification.randomized_benchmarking.dihedral import (
    random_cnotdihedral, SpecialPolynomial, make_dict_0, make_dict_next)

from vlib import qsim

ID = 'C13'
BOUNDS = {
    'quick': 'all 16 one-qubit and all 6144 two-qubit elements: matrix, decomposition, adjoint, '
             'conjugate, transpose, equality, product with every generator on both sides; all '
             '256 one-qubit products; every 3-qubit word of length <= 3 and 4-qubit word of '
             'length <= 2 over {x, t, cx}; tensor/expand of all one-qubit pairs and of 16 x 24 '
             'mixed pairs; all 168 (three qubits) and 240 of 20160 (four qubits) linear maps with '
             'shifts and phases; generators on 5 and 6 qubits; random elements for seeds 0..19 on 1-4 qubits; 60 gates accepted or '
             'rejected according to their unitary; phase polynomials on 1-4 variables (sums, '
             'multiples, products, substitutions); the enumeration of elements by number of cx '
             'gates (levels 0 and 1)',
    'thorough': 'as quick with 3-qubit words of length <= 4, 4-qubit words of length <= 3, '
                'products of all pairs among 384 two-qubit elements, 5040 four-qubit linear '
                'maps, seeds 0..99, all levels of the enumeration (6144 elements)',
}
ASSUMPTIONS = ['tensor puts the first operand on the low-numbered qubits, as the existing tests '
               'require',
               'equality is judged up to global phase, which the class documents as discarded']
W8 = np.exp(1j * np.pi / 4)


# reference element: (images of basis states, phases mod 8 with phase of |0..0> = 0)
def ident(n):
    return tuple(range(2 ** n)), (0,) * 2 ** n


def norm(f, p):
    return tuple(f), tuple((x - p[0]) % 8 for x in p)


def act(elem, gate):
    """Apply a generator after elem."""
    f, p = list(elem[0]), list(elem[1])
    for x in range(len(f)):
        if gate[0] == 'x':
            f[x] ^= 1 << gate[1]
        elif gate[0] == 't':
            if f[x] >> gate[1] & 1:
                p[x] += gate[2] if len(gate) > 2 else 1
        else:
            if f[x] >> gate[1] & 1:
                f[x] ^= 1 << gate[2]
    return norm(f, p)


def then(a, b):
    """b after a."""
    return norm([b[0][y] for y in a[0]], [p + b[1][y] for y, p in zip(a[0], a[1])])


def inverse(a):
    f = [0] * len(a[0])
    p = [0] * len(a[0])
    for x, y in enumerate(a[0]):
        f[y], p[y] = x, -a[1][x]
    return norm(f, p)


def conj(a):
    return norm(a[0], [-x for x in a[1]])


def transpose(a):
    return conj(inverse(a))


def kron(low, high):
    nl, nh = len(low[0]), len(high[0])
    f = [low[0][x % nl] + nl * high[0][x // nl] for x in range(nl * nh)]
    p = [low[1][x % nl] + high[1][x // nl] for x in range(nl * nh)]
    return norm(f, p)


def matrix(a):
    mat = np.zeros((len(a[0]),) * 2, dtype=complex)
    for x, y in enumerate(a[0]):
        mat[y, x] = W8 ** a[1][x]
    return mat


def gens(n):
    out = [['x', i] for i in range(n)] + [['t', i] for i in range(n)]
    return out + [['c', i, j] for i in range(n) for j in range(n) if i != j]


def circuit(word, n):
    circ = QuantumCircuit(n)
    for g in word:
        if g[0] == 'x':
            circ.x(g[1])
        elif g[0] == 't':
            circ.append(lib.U1Gate((g[2] if len(g) > 2 else 1) * np.pi / 4), [g[1]])
        else:
            circ.cx(g[1], g[2])
    return circ


def ref_of(word, n):
    e = ident(n)
    for g in word:
        e = act(e, g)
    return e


def group(n, depth=None):
    """(word, reference) of every element up to the depth, by breadth first search."""
    seen = {ident(n): []}
    level = [ident(n)]
    d = 0
    while level and (depth is None or d < depth):
        nxt = []
        for e in level:
            for g in gens(n):
                new = act(e, g)
                if new not in seen:
                    seen[new] = seen[e] + [g]
                    nxt.append(new)
        level = nxt
        d += 1
    return [[w, e] for e, w in seen.items()]


def cases(tier):
    thorough = tier == 'thorough'
    out = [['one']]
    out += [['two', c] for c in range(32)]
    out.append(['two_distinct'])
    out += [['words', 3, 4 if thorough else 3, c, 16] for c in range(16)]
    out += [['words', 4, 3 if thorough else 2, c, 16] for c in range(16)]
    out += [['pairs2', c, 8, 384 if thorough else 96] for c in range(8)]
    out += [['tensor', c] for c in range(4)]
    out += [['random', n, s] for n in (1, 2, 3, 4) for s in range(100 if thorough else 20)]
    out += [['inplace', n] for n in (1, 2, 3)]
    out += [['linear', 3, c, 16, 1] for c in range(16)]
    out += [['linear', 4, c, 16, 4 if thorough else 84] for c in range(16)]
    out += [['wide', n, b, h] for n in (5, 6) for b in (0, 1, 2) for h in (0, 1)]
    out += [['gates'], ['init'], ['reject']]
    out += [['poly', n] for n in (1, 2, 3, 4)]
    out += [['dicts', 1, 2], ['dicts', 2, 5 if thorough else 2]]
    return out


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def same(ctx, clause, elem, ref, what=''):
    """The element is the reference one: matrix, action and circuit."""
    mat = matrix(ref)
    n = elem.num_qubits
    ctx.equal(clause + '_qubits', 2 ** n, len(ref[0]))
    ctx.check(clause, qsim.same_unitary(qsim.unitary(elem.to_circuit()), mat), what or ref)
    ctx.check(clause + '_matrix', qsim.same_unitary(elem.to_matrix(), mat), what or ref)


def unary(ctx, elem, ref, what):
    key = elem.key
    same(ctx, 'element', elem, ref, what)
    ctx.check('valid', elem.is_cnotdihedral() is True, what)
    for name, func in (('adjoint', inverse), ('conjugate', conj), ('transpose', transpose)):
        got = getattr(elem, name)()
        ctx.step()
        want = func(ref)
        ctx.check(name, qsim.same_unitary(qsim.unitary(got.to_circuit()), matrix(want)), what)
    ctx.check('adjoint_involution', elem.adjoint().adjoint() == elem, what)
    again = CNOTDihedral(elem.to_circuit())
    ctx.step()
    ctx.check('equality', again == elem and elem == again, what)
    ctx.check('operands_unmodified', elem.key == key, what)
    # action on basis states: |x> -> w^p(x) |Bx + c>
    n = elem.num_qubits
    lin = np.asarray(elem.linear)
    sh = np.asarray(elem.shift)
    p0 = elem.poly.evaluate([0] * n)
    for x in range(2 ** n):
        bits = [x >> i & 1 for i in range(n)]
        img = (lin @ bits + sh) % 2
        ctx.equal('action', int(sum(int(b) << i for i, b in enumerate(img))), ref[0][x], what)
        ctx.equal('phase', int(elem.poly.evaluate(bits) - p0) % 8, ref[1][x], what)


def binary(ctx, a, ra, b, rb, what):
    ka, kb = a.key, b.key
    if what and isinstance(what, tuple) and isinstance(what[1], list) and what[1] and \
            isinstance(what[1][0], list):
        # the product is the element of the joint circuit
        both = build(list(what[0]) + list(what[1]), a.num_qubits)
        ctx.check('equality', a.compose(b) == both and both == b.dot(a), what)
    for clause, func, want in (
            ('compose', lambda: a.compose(b), then(ra, rb)),
            ('compose_front', lambda: a.compose(b, front=True), then(rb, ra)),
            ('dot', lambda: a.dot(b), then(rb, ra)),
            ('product', lambda: a * b, then(rb, ra))):
        got = func()
        ctx.step()
        if clause == 'product' and got.poly.weight_0 != 0:
            # the plain product keeps the global phase, which has no circuit
            got.poly.weight_0 = 0
        ctx.check(clause, qsim.same_unitary(qsim.unitary(got.to_circuit()), matrix(want)), what)
        ctx.check(clause + '_valid', got.is_cnotdihedral() is True, what)
    ctx.check('operands_unmodified', (a.key, b.key) == (ka, kb), what)
    ctx.check('equality', (a == b) == (ra == rb), what)
    ctx.check('inequality', (a != b) == (ra != rb), what)


def build(word, n):
    return CNOTDihedral(circuit(word, n))


def run_one(case, ctx):
    elems = group(1)
    ctx.equal('order', len(elems), 16)
    for w, e in elems:
        ctx.state(e)
        unary(ctx, build(w, 1), e, w)
    for (wa, a), (wb, b) in itertools.product(elems, repeat=2):
        binary(ctx, build(wa, 1), a, build(wb, 1), b, (wa, wb))


G2 = []


def group2():
    if not G2:
        G2.extend(group(2))
    return G2


def run_two(case, ctx):
    elems = group2()
    ctx.equal('order', len(elems), 6144)
    for idx in range(case[1], len(elems), 32):
        w, e = elems[idx]
        ctx.state(e)
        elem = build(w, 2)
        unary(ctx, elem, e, w)
        g = gens(2)[(idx // 32) % len(gens(2))]
        binary(ctx, elem, e, build([g], 2), act(ident(2), g), (w, g))
        ctx.outcome(e)


def run_two_distinct(case, ctx):
    """Distinct unitaries are distinct elements."""
    keys = {}
    for w, e in group2():
        k = build(w, 2).key
        ctx.step()
        ctx.check('distinct', k not in keys, (w, keys.get(k)))
        keys[k] = w


def run_words(case, ctx):
    _, n, depth, chunk, nchunk = case
    for w, e in group(n, depth)[chunk::nchunk]:
        ctx.state(e)
        unary(ctx, build(w, n), e, w)
        # a product with a fixed non-trivial element
        other = [['t', n - 1], ['c', n - 1, 0], ['x', 0], ['t', 0], ['c', 0, 1]]
        if len(w) <= 2:
            binary(ctx, build(w, n), e, build(other, n), ref_of(other, n), w)


def linear_words(n):
    """A word of cx gates for every invertible linear map, by breadth first search."""
    cx = [g for g in gens(n) if g[0] == 'c']
    start = tuple(1 << i for i in range(n))
    seen = {start: []}
    level = [start]
    while level:
        nxt = []
        for e in level:
            for g in cx:
                new = list(e)
                new[g[2]] ^= new[g[1]]
                new = tuple(new)
                if new not in seen:
                    seen[new] = seen[e] + [g]
                    nxt.append(new)
        level = nxt
    return list(seen.values())


def phase_words(n):
    """Words of diagonal gates: all kinds of monomials."""
    out = [[]]
    for i, j, k in itertools.combinations(range(n), 3):
        ccz = [['c', i, k], ['c', j, k], ['t', k], ['c', i, k], ['c', j, k]]
        out.append(ccz)
        out.append([['t', i, 3], ['t', j, 6]] + ccz + [['c', j, i], ['t', i, 3], ['c', j, i]])
    for i, j in itertools.permutations(range(n), 2):
        out.append([['t', i, 5], ['c', i, j], ['t', j, 1 + (i + j) % 3], ['c', i, j]])
    return out


def run_linear(case, ctx):
    """Every linear map with every shift and each kind of phase polynomial."""
    _, n, chunk, nchunk, stride = case
    words = linear_words(n)
    ctx.equal('order', len(words), {3: 168, 4: 20160}[n])
    phases = phase_words(n)
    for idx, w in list(enumerate(words))[chunk * stride::nchunk * stride]:
        for sh in range(2 ** n) if n == 3 else (idx % 16,):
            ph = phases[(idx // nchunk + sh) % len(phases)]
            word = ph + w + [['x', i] for i in range(n) if sh >> i & 1]
            ref = ref_of(word, n)
            ctx.state(ref)
            elem = build(word, n)
            unary(ctx, elem, ref, word)
            ctx.check('inverse', elem.compose(elem.adjoint()) == CNOTDihedral(n), word)


def run_wide(case, ctx):
    """More qubits: every generator before and after fixed long words."""
    _, n, which, half = case
    chain = [['c', i, i + 1] for i in range(n - 1)]
    base = [[], chain + [['t', n - 1, 3]],
            [['t', 0]] + chain[::-1] + [['x', n - 2], ['t', n - 2, 5], ['c', n - 1, 0], ['t', 0, 7]]]
    b = base[which]
    rb = ref_of(b, n)
    eb = build(b, n)
    if half == 0:
        unary(ctx, eb, rb, b)
    for g in list(gens(n))[half::2]:
        ctx.state(rb, g)
        binary(ctx, eb, rb, build([g], n), act(ident(n), g), (b, g))
        ctx.check('equality', eb.compose(build([g], n)) == build(b + [g], n), (b, g))
    if which == 0 and half:
        low, high = base[1], [['t', 0], ['c', 0, 1], ['t', 1, 2]]
        tensors(ctx, low, ref_of(low, n), n, high, ref_of(high, 2), 2)


def run_pairs2(case, ctx):
    _, chunk, nchunk, count = case
    elems = group2()
    pick = elems[7::len(elems) // count][:count]
    small = pick[::4] if count <= 96 else pick[::8]
    for (wa, a), (wb, b) in itertools.islice(itertools.product(pick, small), chunk, None, nchunk):
        ctx.state(a, b)
        binary(ctx, build(wa, 2), a, build(wb, 2), b, (wa, wb))


def tensors(ctx, wa, a, na, wb, b, nb):
    ea, eb = build(wa, na), build(wb, nb)
    keys = ea.key, eb.key
    same(ctx, 'tensor', ea.tensor(eb), kron(a, b), (wa, wb))
    same(ctx, 'expand', ea.expand(eb), kron(b, a), (wa, wb))
    ctx.step(2)
    ctx.check('tensor_valid', ea.tensor(eb).is_cnotdihedral() is True, (wa, wb))
    ctx.check('operands_unmodified', (ea.key, eb.key) == keys, (wa, wb))
    ctx.check('equality', ea.tensor(eb) == CNOTDihedral(
        circuit(wa + [[g[0]] + ([g[1] + na] + list(g[2:]) if g[0] in 'xt' else [g[1] + na, g[2] + na])
                      for g in wb], na + nb)), (wa, wb))


def run_tensor(case, ctx):
    one = group(1)
    elems = group2()
    two = elems[11::len(elems) // 24][:24]
    if case[1] == 0:
        for (wa, a), (wb, b) in itertools.product(one, repeat=2):
            ctx.state(a, b)
            tensors(ctx, wa, a, 1, wb, b, 1)
    elif case[1] == 1:
        for (wa, a), (wb, b) in itertools.product(one, two):
            ctx.state(a, b)
            tensors(ctx, wa, a, 1, wb, b, 2)
    elif case[1] == 2:
        for (wa, a), (wb, b) in itertools.product(two[::3], two[1::3]):
            ctx.state(a, b)
            tensors(ctx, wa, a, 2, wb, b, 2)
    else:
        three = group(3, 2)[20::9]
        for (wa, a), (wb, b) in itertools.product(three, one[::3]):
            ctx.state(a, b)
            tensors(ctx, wa, a, 3, wb, b, 1)


def run_random(case, ctx):
    _, n, seed = case
    elem = random_cnotdihedral(n, seed=seed)
    ctx.step()
    ctx.check('valid', elem.is_cnotdihedral() is True, seed)
    ctx.check('deterministic', random_cnotdihedral(n, seed=seed) == elem, seed)
    rng = RandomState(seed)
    first, second = random_cnotdihedral(n, seed=rng), random_cnotdihedral(n, seed=rng)
    ctx.check('generator', first.is_cnotdihedral() and second.is_cnotdihedral(), seed)
    if n >= 2:
        ctx.check('generator_advances', not first == second, seed)
    # the reference element read off the circuit
    mat = qsim.unitary(elem.to_circuit())
    f, p = [], []
    for x in range(2 ** n):
        y = int(np.argmax(np.abs(mat[:, x])))
        f.append(y)
        p.append(int(np.round(np.angle(mat[y, x]) / (np.pi / 4))))
    ref = norm(f, p)
    ctx.check('monomial', qsim.same_unitary(matrix(ref), mat), seed)
    unary(ctx, elem, ref, seed)
    ctx.outcome(ref)
    other = random_cnotdihedral(n, seed=seed + 1000)
    mo = qsim.unitary(other.to_circuit())
    ctx.check('compose', qsim.same_unitary(qsim.unitary(elem.compose(other).to_circuit()),
                                           mo @ mat), seed)
    ctx.check('dot', qsim.same_unitary(qsim.unitary(elem.dot(other).to_circuit()),
                                       mat @ mo), seed)
    ctx.check('inverse', elem.compose(elem.adjoint()) == CNOTDihedral(n), seed)


def run_inplace(case, ctx):
    n = case[1]
    pool = group(1) if n == 1 else group2()[3::97] if n == 2 else group(3, 2)[::7]
    steps = [['x', i] for i in range(n)]
    steps += [['t', i, k] for i in range(n) for k in range(8)]
    steps += [['c', i, j] for i in range(n) for j in range(n) if i != j]
    for w, e in pool:
        for s in steps:
            elem = build(w, n)
            if s[0] == 'x':
                elem.flip(s[1])
            elif s[0] == 't':
                elem.phase(s[2], s[1])
            else:
                elem.cnot(s[1], s[2])
            ctx.step()
            same(ctx, 'inplace', elem, act(e, s), (w, s))
            ctx.check('inplace_equal', elem == build(w + [s], n), (w, s))


def compose_gate(gate, n):
    circ = QuantumCircuit(n)
    circ.append(gate, list(range(n)))
    return circ


MEMBERS = None


def members():
    global MEMBERS
    if MEMBERS is None:
        MEMBERS = {1: set(e for _, e in group(1)), 2: set(e for _, e in group2())}
    return MEMBERS


def as_ref(mat):
    """Reference element of a unitary or None."""
    n = int(np.log2(len(mat)))
    f, p = [], []
    for x in range(len(mat)):
        y = int(np.argmax(np.abs(mat[:, x])))
        f.append(y)
        p.append(int(np.round(np.angle(mat[y, x] / mat[f[0], 0]) / (np.pi / 4))))
    ref = norm(f, p)
    if sorted(f) != list(range(len(mat))) or not qsim.same_unitary(matrix(ref), mat):
        return None
    if n <= 2:
        return ref if ref in members()[n] else None
    return ref


def run_gates(case, ctx):
    """Gates of the group are represented faithfully, the others are rejected."""
    nested = QuantumCircuit(2, name='sub')
    nested.t(0)
    nested.cx(0, 1)
    nested.sdg(1)
    deep = QuantumCircuit(3, name='deep')
    deep.append(nested.to_gate(), [2, 0])
    deep.swap(1, 2)
    deep.append(lib.CZGate(), [0, 1])
    must = [lib.IGate(), lib.XGate(), lib.YGate(), lib.ZGate(), lib.SGate(), lib.SdgGate(),
            lib.TGate(), lib.TdgGate(), lib.CXGate(), lib.CZGate(), lib.SwapGate(),
            nested.to_gate(), nested.to_instruction(), deep.to_gate()]
    must += [lib.U1Gate(k * np.pi / 4) for k in range(-9, 18)]
    must += [lib.PhaseGate(k * np.pi / 4) for k in (-3, -1, 1, 5, 9)]
    never = [lib.HGate(), lib.SXGate(), lib.RXGate(.5), lib.RXGate(np.pi / 2), lib.RYGate(.3),
             lib.CHGate(), lib.CCXGate(), lib.U1Gate(.3), lib.U1Gate(np.pi / 8),
             lib.U1Gate(-.1), lib.U1Gate(.78), lib.PhaseGate(.3), lib.U2Gate(0, np.pi),
             lib.U3Gate(.1, .2, .3), lib.CU1Gate(np.pi / 4), lib.CRZGate(np.pi / 4),
             lib.CSwapGate(), lib.RZZGate(.3), lib.RZGate(.3), lib.CU1Gate(.3)]
    maybe = [lib.RZGate(np.pi / 4), lib.RZGate(-np.pi / 2), lib.CU1Gate(np.pi / 2),
             lib.CPhaseGate(-np.pi / 2), lib.CYGate(), lib.iSwapGate(), lib.RZZGate(np.pi / 2),
             lib.CRZGate(np.pi), lib.U3Gate(0, 0, np.pi / 4), lib.U3Gate(np.pi, 0, np.pi)]
    for kind, gates in (('must', must), ('never', never), ('maybe', maybe)):
        for gate in gates:
            n = gate.num_qubits
            mat = qsim.unitary(compose_gate(gate, n))
            for form, obj in (('gate', gate), ('circuit', compose_gate(gate, n))):
                ctx.state(kind, form, gate.name, [float(x) for x in gate.params])
                ctx.step()
                what = '%s %s %s' % (form, gate.name, gate.params)
                if kind == 'never':
                    ctx.check('oracle', as_ref(mat) is None or n == 3, what)
                    ctx.raises('rejected', (QiskitError,), lambda o=obj: CNOTDihedral(o), what)
                    continue
                if kind == 'maybe':
                    try:
                        elem = CNOTDihedral(obj)
                    except QiskitError:
                        continue
                else:
                    elem = CNOTDihedral(obj)
                    ident_ = CNOTDihedral(n)
                    ctx.check('from_circuit', ident_.from_circuit(obj) == elem, what)
                    ctx.check('operands_unmodified', ident_ == CNOTDihedral(n), what)
                ctx.check('faithful', qsim.same_unitary(elem.to_matrix(), mat), what)
    # gates on permuted qubits of larger circuits
    for qa in itertools.permutations(range(3), 2):
        for gate in (lib.CXGate(), lib.CZGate(), lib.SwapGate(), nested.to_gate()):
            circ = QuantumCircuit(3)
            circ.t(qa[0])
            circ.append(gate, qa)
            circ.x(qa[1])
            ctx.step()
            ctx.check('faithful', qsim.same_unitary(CNOTDihedral(circ).to_matrix(),
                                                    qsim.unitary(circ)), (gate.name, qa))


def run_init(case, ctx):
    for n in (1, 2, 3):
        same(ctx, 'identity', CNOTDihedral(n), ident(n))
        same(ctx, 'identity', CNOTDihedral(ScalarOp(2 ** n)), ident(n))
        ctx.step(2)
        for lab in itertools.product('IXYZ', repeat=n):
            lab = ''.join(lab)
            ctx.state('pauli', lab)
            elem = CNOTDihedral(Pauli(lab))
            ctx.step()
            ctx.check('pauli', qsim.same_unitary(elem.to_matrix(), Operator(Pauli(lab)).data), lab)
    for w, e in group2()[5::400]:
        elem = build(w, 2)
        copy = CNOTDihedral(elem)
        ctx.step()
        ctx.check('copy', copy == elem and copy.num_qubits == 2, w)
        same(ctx, 'copy', copy, e, w)
        ctx.check('roundtrip', CNOTDihedral(elem.to_instruction()) == elem, w)
        ctx.check('operator', Operator(elem).equiv(Operator(matrix(e))), w)
    for w in ([['c', 0, 1], ['c', 1, 2], ['t', 2, 3], ['x', 1]],
              [['t', 0, 7], ['c', 2, 1], ['c', 1, 0], ['t', 0, 5], ['c', 0, 2], ['t', 2]]):
        elem = build(w, 3)
        copy = CNOTDihedral(elem)
        ctx.step()
        ctx.check('copy', copy == elem and copy.num_qubits == 3, w)
        same(ctx, 'copy', copy, ref_of(w, 3), w)
        ctx.check('roundtrip', CNOTDihedral(elem.to_instruction()) == elem, w)
        ctx.check('operator', Operator(elem).equiv(Operator(matrix(ref_of(w, 3)))), w)
    # several registers
    circ = QuantumCircuit(QuantumRegister(2, 'a'), QuantumRegister(1, 'b'),
                          QuantumRegister(1, 'c'))
    circ.x(1)
    circ.cx(1, 3)
    circ.t(3)
    circ.cx(2, 0)
    circ.t(0)
    ctx.check('registers', qsim.same_unitary(CNOTDihedral(circ).to_matrix(), qsim.unitary(circ)),
              'several registers')
    # the name of a circuit does not matter
    for name in ('x', 'cx', 'z', 'u1', 'id'):
        circ = QuantumCircuit(2, name=name)
        circ.t(0)
        circ.cx(1, 0)
        ctx.check('circuit_name', qsim.same_unitary(CNOTDihedral(circ).to_matrix(),
                                                    qsim.unitary(circ)), name)


def run_reject(case, ctx):
    meas = QuantumCircuit(1, 1)
    meas.measure(0, 0)
    cond = QuantumCircuit(QuantumRegister(1), ClassicalRegister(1, 'c'))
    cond.x(0).c_if(cond.cregs[0], 1)
    reset = QuantumCircuit(1)
    reset.reset(0)
    hgate = QuantumCircuit(2)
    hgate.x(0)
    hgate.h(1)
    for circ in (meas, cond, reset, hgate):
        ctx.step()
        ctx.raises('reject', QiskitError, lambda c=circ: CNOTDihedral(c), str(circ.data))
    a, b = CNOTDihedral(1), CNOTDihedral(2)
    for func in (lambda: a.compose(b), lambda: a.dot(b), lambda: a * b):
        ctx.raises('reject', QiskitError, func, 'different sizes')
    for func in (lambda: b.cnot(0, 2), lambda: b.cnot(-1, 0), lambda: b.phase(1, 2),
                 lambda: b.flip(2), lambda: b.tensor('x'), lambda: CNOTDihedral(ScalarOp(3)),
                 lambda: b.from_circuit('x')):
        ctx.raises('reject', QiskitError, func, 'invalid argument')
    for name in ('u1', 'p'):
        for power in range(-9, 10):
            for off in (0, 0.03, -0.1, 0.2, 0.5):
                circ = QuantumCircuit(2)
                getattr(circ, name)((power + off) * np.pi / 4, 1)
                ctx.step()
                if off:
                    ctx.raises('reject', QiskitError, lambda c=circ: CNOTDihedral(c),
                               '%s of %g' % (name, power + off))
                else:
                    ctx.check('angle', qsim.same_unitary(CNOTDihedral(circ).to_matrix(),
                                                         qsim.unitary(circ)), (name, power))
    # the linear part is invertible over the field of two elements
    for n in (1, 2, 3):
        for bits in itertools.product((0, 1), repeat=n * n):
            c = CNOTDihedral(n)
            c.linear = np.array(bits).reshape(n, n)
            images = {tuple(c.linear @ x % 2) for x in itertools.product((0, 1), repeat=n)}
            ctx.step()
            ctx.check('invertible', c.is_cnotdihedral() is (len(images) == 2 ** n), bits)
    for n in (4, 5, 6):
        for shape in ('zero', 'equal', 'ring', 'ring+', 'full', 'upper'):
            mat = np.eye(n, dtype=int)
            if shape == 'zero':
                mat[n - 1, n - 1] = 0
            elif shape == 'equal':
                mat[n - 1] = mat[0]
            elif shape.startswith('ring'):
                mat += np.roll(mat, 1, axis=0)
                if shape == 'ring+':
                    mat[0] = [1] + [0] * (n - 1)
            elif shape == 'full':
                mat = 1 - mat
            else:
                mat = np.triu(np.ones((n, n), dtype=int))
            c = CNOTDihedral(n)
            c.linear = mat
            images = {tuple(mat @ x % 2) for x in itertools.product((0, 1), repeat=n)}
            ctx.step()
            ctx.check('invertible', c.is_cnotdihedral() is (len(images) == 2 ** n), (n, shape))
    for change in ('linear', 'w1', 'w2', 'w3', 'shift'):
        c = CNOTDihedral(3)
        ctx.check('valid', c.is_cnotdihedral() is True, change)
        if change == 'linear':
            c.linear = np.array([[1, 1, 0], [1, 1, 0], [0, 0, 1]])
        elif change == 'w1':
            c.poly.weight_1 = np.array([0, 9, 0])
        elif change == 'w2':
            c.poly.weight_2 = np.array([0, 1, 0])
        elif change == 'w3':
            c.poly.weight_3 = np.array([2])
        else:
            c.shift = np.array([0, 2, 0])
        ctx.check('invalid', c.is_cnotdihedral() is False, change)
    for bad in (0, -1):
        ctx.raises('reject', Exception, lambda n=bad: CNOTDihedral(n), 'no qubits')


def poly_of(n, coeffs):
    """coeffs: {tuple of indices: value}"""
    poly = SpecialPolynomial(n)
    for idx, val in coeffs.items():
        poly.set_term(list(idx), val)
    return poly


def poly_ref(coeffs, bits):
    return sum(v for idx, v in coeffs.items() if all(bits[i] for i in idx)) % 8


def run_poly(case, ctx):
    """Polynomials modulo 8 on bits: arithmetic agrees with arithmetic of the values."""
    n = case[1]
    terms = [t for r in range(min(n, 3) + 1) for t in itertools.combinations(range(n), r)]
    pool = [{}]
    pool += [{t: v} for t in terms for v in ((1, 3, 6, 7) if n < 4 else (5,))]
    pool += [{t: (3 * i + k) % 8 for i, t in enumerate(terms)} for k in range(8 if n < 4 else 2)]
    pool += [{t: 2 + (5 * i) % 6 for i, t in enumerate(terms) if i % 3 == k} for k in range(3)]
    space = list(itertools.product((0, 1), repeat=n))
    polys = [(c, poly_of(n, c)) for c in pool]
    for c, poly in polys:
        ctx.state(n, sorted(c.items()))
        for t in terms:
            ctx.equal('term', int(poly.get_term(list(t))), c.get(t, 0), (c, t))
        for bits in space:
            ctx.step()
            ctx.equal('evaluate', int(poly.evaluate(list(bits))) % 8, poly_ref(c, bits), (c, bits))
        ctx.equal('evaluate', int(poly.evaluate([2 * b + 1 for b in space[1]])) % 8,
                  poly_ref(c, [1] * n), c)
        for k in (-3, -1, 0, 1, 2, 5, 7, 9):
            for prod in (poly * k, k * poly):
                ctx.check('scalar', all(int(prod.evaluate(list(b))) % 8 == k * poly_ref(c, b) % 8
                                        for b in space), (c, k))
        ctx.check('self_equal', poly == poly_of(n, c), c)
    for (ca, a), (cb, b) in itertools.product(polys, repeat=2):
        ctx.step(2)
        ka, kb = a.key, b.key
        same_fn = all(ca.get(t, 0) == cb.get(t, 0) for t in terms)
        ctx.equal('poly_equality', a == b, same_fn, (ca, cb))
        total = a + b
        ctx.check('sum', all(int(total.evaluate(list(x))) % 8 ==
                             (poly_ref(ca, x) + poly_ref(cb, x)) % 8 for x in space), (ca, cb))
        if n < 4:
            prod = a * b
            ctx.check('poly_product', all(int(prod.evaluate(list(x))) % 8 ==
                                          poly_ref(ca, x) * poly_ref(cb, x) % 8 for x in space),
                      (ca, cb))
        ctx.check('operands_unmodified', (a.key, b.key) == (ka, kb), (ca, cb))
    one = SpecialPolynomial(n)
    for bad in ([n], [-1], [0, n], [1, 0], [0, 0]):
        ctx.raises('bad_term', QiskitError, lambda b=bad: one.get_term(b), bad)
        ctx.raises('bad_term', QiskitError, lambda b=bad: one.set_term(b, 1), bad)
    ctx.raises('bad_term', QiskitError, lambda: one.set_pj([n]), 'parity')
    other = SpecialPolynomial(n + 1)
    for func in (lambda: one + other, lambda: one * other, lambda: one + 1,
                 lambda: one.evaluate([0] * (n + 1))):
        ctx.raises('bad_operand', QiskitError, func, n)
    ctx.check('operands_unmodified', one == SpecialPolynomial(n), n)
    # parities, and substituting affine maps in special polynomials
    subsets = [s for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]
    for s in subsets:
        for order in (s, s[::-1]):
            par = SpecialPolynomial(n)
            par.set_pj(list(order))
            ctx.check('parity', all(int(par.evaluate(list(x))) % 8 == sum(x[i] for i in s) % 2
                                    for x in space), s)
    special = [{t: v * 2 ** (len(t) - 1)} for t in terms if t for v in (1, 3)]
    special.append({t: (3 + i) * 2 ** (len(t) - 1) % 8 for i, t in enumerate(terms) if t})
    for c in special:
        poly = poly_of(n, c)
        for k, s in enumerate(subsets):
            xs, maps = [], []
            for i in range(n):
                rows = subsets[(k + 3 * i) % len(subsets)]
                par = SpecialPolynomial(n)
                par.set_pj(list(rows))
                flip = (k + i) % 2
                if flip:
                    par = -1 * par
                    par.weight_0 = (par.weight_0 + 1) % 8
                xs.append(par)
                maps.append((rows, flip))
            got = poly.evaluate(xs)
            ctx.step()
            for x in space:
                y = [(sum(x[j] for j in rows) + flip) % 2 for rows, flip in maps]
                ctx.equal('substitute', int(got.evaluate(list(x))) % 8, poly_ref(c, y), (c, maps, x))


def run_dicts(case, ctx):
    """The enumeration of the group by the number of cx gates."""
    _, n, levels = case
    dicts = [make_dict_0(n)]
    while len(dicts) < levels:
        dicts.append(make_dict_next(n, dicts))
    total = set()
    for d, entries in enumerate(dicts):
        for key, (elem, word) in entries.items():
            ctx.step()
            ctx.equal('dict_key', elem.key, key, word)
            ref = ident(n)
            for g in word:
                ref = act(ref, ['x', g[1]] if g[0] == 'x' else
                          ['t', g[2], g[1]] if g[0] == 'u1' else ['c', g[1], g[2]])
            ctx.equal('dict_level', sum(g[0] == 'cx' for g in word), d, word)
            ctx.check('dict_distinct', ref not in total, word)
            total.add(ref)
            ctx.check('dict_element', qsim.same_unitary(elem.to_matrix(), matrix(ref)), word)
            ctx.check('dict_valid', elem.is_cnotdihedral() is True, word)
    ctx.outcome(len(total))
    # exactly the elements reachable with fewer than `levels` cx gates
    want = {ident(n)}
    local = [g for g in gens(n) if g[0] != 'c']

    def close(seen):
        todo = list(seen)
        while todo:
            e = todo.pop()
            for g in local:
                new = act(e, g)
                if new not in seen:
                    seen.add(new)
                    todo.append(new)
    close(want)
    for _ in range(levels - 1):
        step = set(want)
        for e in want:
            for g in gens(n):
                if g[0] == 'c':
                    step.add(act(e, g))
        close(step)
        want = step
    ctx.equal('dict_complete', len(total), len(want), 'levels %d' % levels)
    ctx.check('dict_complete', total == want, 'elements')
