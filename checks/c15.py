"""C15: RB gate counting and error conversions."""
import itertools

import numpy as np
from qiskit import QiskitError, QuantumCircuit, QuantumRegister, assemble
from qiskit.circuit.library import U1Gate, U2Gate, U3Gate, CXGate, CZGate, CCXGate
from qiskit.ignis.verification.randomized_benchmarking import rb_utils as ru

ID = 'C15'
BOUNDS = {
    'quick': 'every circuit of <= 2 gates over {u1,u2,u3 on each qubit, cx/cz on each ordered '
             'pair, ccx, barrier, measure} on 3 qubits in 3 register layouts, all qubit selections; '
             'every pair of circuit lists from a set of 6; conversions on grids of 4 gate counts '
             'x 5 errors per gate; coherence limit on 6x6 (T1, T2) per qubit x 5 lengths; 12-qubit '
             'circuits of 11 lengths',
    'thorough': 'circuits of <= 3 gates, finer grids',
}
ASSUMPTIONS = ['T2 <= 2 T1, the physical range, for the coherence limit']

LAYOUTS = {'one': [3], 'two': [1, 2], 'three': [1, 1, 1]}
GATES = ([['u1', q] for q in range(3)] + [['u2', q] for q in range(3)]
         + [['u3', q] for q in range(3)]
         + [[g, a, b] for g in ('cx', 'cz') for a in range(3) for b in range(3) if a != b]
         + [['barrier', 0, 1, 2], ['measure', 1], ['ccx', 2, 0, 1]])


def build(layout, gates):
    """A circuit with the given registers and gates."""
    regs = [QuantumRegister(s, 'r%d' % i) for i, s in enumerate(LAYOUTS[layout])]
    circ = QuantumCircuit(*regs)
    from qiskit import ClassicalRegister
    circ.add_register(ClassicalRegister(3, 'c'))
    for gate in gates:
        name, qubits = gate[0], gate[1:]
        if name == 'u1':
            circ.append(U1Gate(0.1), qubits)
        elif name == 'u2':
            circ.append(U2Gate(0.1, 0.2), qubits)
        elif name == 'u3':
            circ.append(U3Gate(0.1, 0.2, 0.3), qubits)
        elif name == 'cx':
            circ.append(CXGate(), qubits)
        elif name == 'cz':
            circ.append(CZGate(), qubits)
        elif name == 'ccx':
            circ.append(CCXGate(), qubits)
        elif name == 'barrier':
            circ.barrier(*qubits)
        else:
            circ.measure(qubits[0], 0)
    return circ


def count(gates, qubit, name):
    """Number of gates of a kind touching a qubit."""
    return sum(g[0] == name and qubit in g[1:] for g in gates)


BASES = [['u1', 'u2', 'u3', 'cx'], ['u3', 'cz', 'ccx'], ['u2', 'u1', 'cx', 'cz', 'fake']]


def run_count(case, ctx):
    """One circuit, all layouts, qubits and bases."""
    gates = case[1]
    for layout in LAYOUTS:
        circ = build(layout, gates)
        for qubits in ([0], [1], [2], [2, 0], [0, 1, 2]):
            for basis in BASES:
                for length in (1, 4, 100000):
                    ctx.step()
                    got = ru.gates_per_clifford([[circ]], [length], basis, qubits)
                    want = {q: {b: count(gates, q, b) / (length + 1) for b in basis}
                            for q in qubits}
                    ctx.equal('count', got, want, layout)
    ctx.outcome(gates)


LISTS = [[], [['u2', 0]], [['u3', 1], ['cx', 0, 1]], [['cx', 1, 0], ['u2', 1], ['u2', 0]],
         [['u3', 2], ['cz', 2, 0]], [['u1', 0], ['cx', 2, 1], ['u3', 0]]]


def run_lists(case, ctx):
    """Several seeds and lengths."""
    _, seeds, lengths, layout, array = case
    circs = [[build(layout, LISTS[i]) for i in seed] for seed in seeds]
    basis = ['u1', 'u2', 'u3', 'cx', 'cz']
    got = ru.gates_per_clifford(circs, np.array(lengths) if array else lengths, basis, [0, 2])
    ctx.step()
    total = sum(lengths[k] + 1 for seed in seeds for k in range(len(seed)))
    want = {q: {b: sum(count(LISTS[i], q, b) for seed in seeds for i in seed) / total
                for b in basis} for q in (0, 2)}
    ctx.equal('lists', got, want)
    if layout == 'one':
        qobjs = [assemble(seed) for seed in circs]
        ctx.equal('qobj', ru.gates_per_clifford(qobjs, lengths, basis, [0, 2]), want)
        for qubits in ([0, 2], [2, 0], [1], [2, 1, 0]):
            num = ru.count_gates(qobjs[0], basis, qubits)
            ctx.equal('count_gates', np.array(num),
                      np.array([[[count(LISTS[i], q, b) for b in basis] for q in qubits]
                                for i in seeds[0]]), qubits)
    ctx.outcome(got)


def run_bigdev(case, ctx):
    """A device of twelve qubits, eleven lengths and three seeds."""
    pairs = case[1]
    lengths = [1 + 2 * k for k in range(11)]
    circs, words = [], []
    for seed in range(3):
        row, wrow = [], []
        for k in range(11):
            word = []
            for i, pair in enumerate(pairs):
                word += [['cx'] + pair] * (1 + (k + i + seed) % 3)
                word += [['u2', pair[0]]] * ((k * 2 + i) % 4) + [['u3', pair[1]]] * (seed + i)
            circ = QuantumCircuit(QuantumRegister(5, 'a'), QuantumRegister(7, 'b'))
            for gate in word:
                if gate[0] == 'cx':
                    circ.append(CXGate(), gate[1:])
                elif gate[0] == 'u2':
                    circ.append(U2Gate(0.1, 0.2), gate[1:])
                else:
                    circ.append(U3Gate(0.1, 0.2, 0.3), gate[1:])
            row.append(circ)
            wrow.append(word)
        circs.append(row)
        words.append(wrow)
    qubits = sorted({q for p in pairs for q in p}, reverse=True)
    basis = ['u1', 'u2', 'u3', 'cx']
    total = 3 * sum(m + 1 for m in lengths)
    got = ru.gates_per_clifford(circs, lengths, basis, qubits)
    ctx.step()
    ctx.equal('bigdev', got, {q: {b: sum(count(w, q, b) for row in words for w in row) / total
                                  for b in basis} for q in qubits})
    ctx.outcome(got)


def run_bad(case, ctx):
    """Rejected inputs."""
    which = case[1]
    gpc = {0: {'cx': 1.5, 'u1': 0.1, 'u2': 0.3, 'u3': 0.5},
           1: {'cx': 1.5, 'u1': 0.1, 'u2': 0.3, 'u3': 0.5}}
    one = {0: {'cx': 0, 'u1': 0.1, 'u2': 0.3, 'u3': 0.5}}
    epgs = {'u1': 0, 'u2': 1e-3, 'u3': 2e-3}
    calls = {
        'notcircuit': lambda: ru.gates_per_clifford([['x']], [1], ['u1'], [0]),
        'epg1-qubit': lambda: ru.calculate_1q_epg(one, 1e-3, 1),
        'epg1-basis': lambda: ru.calculate_1q_epg({0: {'rx': 1, 'u3': 1}}, 1e-3, 0),
        'epg1-basis3': lambda: ru.calculate_1q_epg({0: {'rx': 1, 'u2': 1}}, 1e-3, 0),
        'epg1-cx': lambda: ru.calculate_1q_epg(gpc, 1e-3, 0),
        'epg1-cx-half': lambda: ru.calculate_1q_epg({0: dict(one[0], cx=0.5)}, 1e-3, 0),
        'epc1-qubit': lambda: ru.calculate_1q_epc(one, epgs, 2),
        'epg2-three': lambda: ru.calculate_2q_epg(gpc, 1e-2, [0, 1, 2]),
        'epg2-one': lambda: ru.calculate_2q_epg(gpc, 1e-2, [0]),
        'epg2-qubit0': lambda: ru.calculate_2q_epg(gpc, 1e-2, [2, 0]),
        'epg2-qubit1': lambda: ru.calculate_2q_epg(gpc, 1e-2, [0, 2]),
        'epg2-qubit0e': lambda: ru.calculate_2q_epg(gpc, 1e-2, [2, 0], [epgs, epgs]),
        'epg2-qubit1e': lambda: ru.calculate_2q_epg(gpc, 1e-2, [0, 2], [epgs, epgs]),
        'epg2-name': lambda: ru.calculate_2q_epg(gpc, 1e-2, [0, 1], two_qubit_name='cz'),
        'epg2-zero': lambda: ru.calculate_2q_epg({0: {'cx': 0}, 1: {'cx': 0}}, 1e-2, [0, 1]),
        'epc2-three': lambda: ru.calculate_2q_epc(gpc, 1e-2, [0, 1, 2], [epgs] * 3),
        'epc2-qubit0': lambda: ru.calculate_2q_epc(gpc, 1e-2, [2, 0], [epgs, epgs]),
        'epc2-qubit1': lambda: ru.calculate_2q_epc(gpc, 1e-2, [0, 2], [epgs, epgs]),
        'epc2-name': lambda: ru.calculate_2q_epc(gpc, 1e-2, [0, 1], [epgs, epgs],
                                                 two_qubit_name='cz'),
        'twoq-three': lambda: ru.twoQ_clifford_error({0: {}, 1: {}, 2: {}}, [0] * 7, [0] * 7),
        'twoq-one': lambda: ru.twoQ_clifford_error({0: {}}, [0] * 7, [0] * 7),
        'coh-long': lambda: ru.coherence_limit(1, [50, 60], [50, 60]),
        'coh-t2': lambda: ru.coherence_limit(2, [50, 60], [50]),
        'coh-t1': lambda: ru.coherence_limit(2, [50], [50, 40]),
        'coh-three': lambda: ru.coherence_limit(3, [50] * 3, [50] * 3),
        'coh-zero': lambda: ru.coherence_limit(0, [], []),
    }
    ctx.step()
    exc = ValueError if which.startswith('coh') else QiskitError
    ctx.raises('reject', exc, calls[which], which)


BAD = ['notcircuit', 'epg1-qubit', 'epg1-basis', 'epg1-basis3', 'epg1-cx', 'epg1-cx-half', 'epc1-qubit',
       'epg2-three', 'epg2-one', 'epg2-qubit0', 'epg2-qubit1', 'epg2-qubit0e', 'epg2-qubit1e',
       'epg2-name', 'epg2-zero', 'epc2-three', 'epc2-qubit0', 'epc2-qubit1', 'epc2-name',
       'twoq-three', 'twoq-one', 'coh-long', 'coh-t2', 'coh-t1', 'coh-three', 'coh-zero']


def run_oneq(case, ctx):
    """EPC to EPG of one qubit and back."""
    _, n1, n2, n3, epc, qubit, cx = case
    gpc = {qubit: {'u1': n1, 'u2': n2, 'u3': n3}, 7: {'u1': 9, 'u2': 9, 'u3': 9, 'cx': 4}}
    if cx:
        gpc[qubit]['cx'] = 0
    epgs = ru.calculate_1q_epg(gpc, epc, qubit)
    ctx.step(2)
    unit = epc / (n2 + 2 * n3)
    ctx.equal('epg1', epgs, {'u1': 0, 'u2': unit, 'u3': 2 * unit})
    back = ru.calculate_1q_epc(gpc, epgs, qubit)
    want = 1 - (1 - unit) ** n2 * (1 - 2 * unit) ** n3
    ctx.close('epc1', back, want, 1e-10)
    ctx.check('roundtrip1', abs(back - epc) <= 4 * epc ** 2 * (1 + 1 / min(1, n2 + n3)) + 1e-12,
              '%g from %g' % (back, epc))
    other = {'u1': 0.01, 'u2': 0.02, 'u3': epc, 'h': 0.1}
    ctx.close('epc1-any', ru.calculate_1q_epc(gpc, other, qubit),
              1 - 0.99 ** n1 * 0.98 ** n2 * (1 - epc) ** n3, 1e-10)
    ctx.outcome(epgs)


def alpha1(gpc, epgs):
    """Depolarising parameter of the one-qubit gates per Clifford."""
    val = 1.0
    for name, epg in epgs.items():
        val *= (1 - 2 * epg) ** gpc.get(name, 0)
    return val


def run_twoq(case, ctx):
    """EPC to EPG of two qubits and back."""
    _, ncx, n2, n3, err1, err2, epg2, pair, name = case
    gpc = {pair[0]: {'u1': 0.2, 'u2': n2, 'u3': 0.4, name: ncx},
           pair[1]: {'u1': 0.1, 'u2': 0.9, 'u3': n3, name: ncx},
           9: {'u2': 5, 'u3': 5, name: 7}}
    epgs = [{'u1': 0, 'u2': err1, 'u3': 2 * err1}, {'u1': 1e-4, 'u2': err2, 'u3': 3 * err2}]
    a0, a1 = alpha1(gpc[pair[0]], epgs[0]), alpha1(gpc[pair[1]], epgs[1])
    mixed = (a0 + a1 + 3 * a0 * a1) / 5
    a2 = (1 - 4 / 3 * epg2) ** ncx
    epc = ru.calculate_2q_epc(gpc, epg2, pair, epgs, two_qubit_name=name)
    ctx.step(4)
    ctx.close('epc2', epc, 3 / 4 * (1 - mixed * a2), 1e-10)
    got = ru.calculate_2q_epg(gpc, epc, pair, epgs, two_qubit_name=name)
    ctx.close('epg2', got, 3 / 4 * (1 - (1 - 4 / 3 * epc) / mixed) / ncx, 1e-10)
    ctx.check('roundtrip2', abs(got - epg2) <= 4 * ncx * epg2 ** 2 + 1e-12,
              '%g from %g' % (got, epg2))
    for none in (None, []):
        ctx.close('epg2-plain', ru.calculate_2q_epg(gpc, epc, pair, none, name), epc / ncx, 1e-10)
    if name == 'cx':
        two = {q: gpc[q] for q in pair}
        order = sorted([0, 1], key=lambda i: pair[i])
        gate_qubit = [0, 0, 0, 1, 1, 1, -1]
        errs = [epgs[i][g] for i in order for g in ('u1', 'u2', 'u3')] + [epg2]
        ctx.close('twoQ', ru.twoQ_clifford_error(two, gate_qubit, errs),
                  3 / 4 * (1 - mixed * a2), 1e-10)
    ctx.outcome(epc)


def kraus(t1, t2, length):
    """Amplitude damping followed by dephasing."""
    gam = 1 - np.exp(-length / t1)
    # coherence factor: sqrt(1-gam) * (1-2p) = exp(-t/T2)
    lam = np.exp(-length / t2) / np.sqrt(1 - gam)
    p = (1 - lam) / 2
    damp = [np.array([[1, 0], [0, np.sqrt(1 - gam)]]), np.array([[0, np.sqrt(gam)], [0, 0]])]
    deph = [np.sqrt(1 - p) * np.eye(2), np.sqrt(max(p, 0)) * np.diag([1, -1])]
    return [d @ k for k in damp for d in deph]


def run_coh(case, ctx):
    """Coherence limit is the average gate infidelity of the relaxation channel."""
    _, t1s, t2s, length = case
    n = len(t1s)
    dim = 2 ** n
    t2eff = t2s or [2 * t for t in t1s]
    pro = 1.0
    for t1, t2 in zip(t1s, t2eff):
        pro *= sum(abs(np.trace(k)) ** 2 for k in kraus(t1, t2, length)) / 4
    want = 1 - (dim * pro + 1) / (dim + 1)
    ctx.step()
    ctx.close('coherence', ru.coherence_limit(n, t1s, t2s, length), want, 1e-9)
    ctx.close('coherence-array',
              ru.coherence_limit(n, np.array(t1s), None if t2s is None else np.array(t2s),
                                 gatelen=length), want, 1e-9)
    ctx.outcome(want)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for b in BAD:
        yield ['bad', b]
    for k in range(0, 4 if full else 3):
        for gates in itertools.product(GATES, repeat=k):
            yield ['count', list(gates)]
    for layout in LAYOUTS:
        for array in (False, True):
            for lists in itertools.product(range(6), repeat=2):
                yield ['lists', [list(lists)], [1, 5], layout, array]
                yield ['lists', [list(lists), list(lists)[::-1], [5, 2]], [3, 7], layout, array]
                yield ['lists', [[lists[0]], [lists[1]]], [2], layout, array]
                yield ['lists', [[lists[0], lists[1], 3], [1, lists[0], 2]], [2, 2, 5], layout,
                       array]
                yield ['lists', [list(lists)], [7, 70000], layout, array]
    for pairs in ([[0, 1], [1, 2]], [[11, 2], [2, 10]], [[1, 11], [11, 10], [0, 9]]):
        yield ['bigdev', pairs]
    nums = [0, 0.3, 1, 1.734]
    for n1 in (0, 0.4):
        for n2 in nums:
            for n3 in nums:
                if n2 + n3 == 0:
                    continue
                for epc in (0, 1e-5, 1e-3, 1e-2, 5e-2):
                    for qubit in (0, 3, 11):
                        for cx in (False, True):
                            yield ['oneq', n1, n2, n3, epc, qubit, cx]
    for ncx in (1, 1.5, 2.237):
        for n2 in nums:
            for n3 in nums:
                for err1 in (0, 1e-3, 1e-2):
                    for err2 in (0, 2e-3, 2e-2):
                        for epg2 in (0, 1e-3, 1e-2, 4e-2):
                            for pair in ([0, 1], [4, 2], [11, 2]):
                                for name in ('cx', 'cz'):
                                    yield ['twoq', ncx, n2, n3, err1, err2, epg2, pair, name]
    t1s = [1.0, 5.0, 20.0, 50.0, 100.0, 300.0]
    ratio = [0.1, 0.5, 1.0, 1.5, 1.9, 2.0]
    lens = [0, 0.01, 0.1, 0.5, 3.0] + ([10.0, 100.0] if full else [])
    for length in lens:
        for t1 in t1s:
            yield ['coh', [t1], None, length]
            for r in ratio:
                yield ['coh', [t1], [t1 * r], length]
        for a, b in itertools.product(t1s, repeat=2):
            yield ['coh', [a, b], None, length]
            for r, s in itertools.product(ratio if full else ratio[::2] + [2.0], repeat=2):
                yield ['coh', [a, b], [a * r, b * s], length]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
