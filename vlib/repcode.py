"""Oracle for the repetition code: classical propagation of X and readout faults."""
from vlib import qsim

CLASSICAL = {'x', 'cx', 'measure', 'reset', 'barrier', 'id', 'y', 'z', 'u0'}


def program(circ):
    """Instructions with indices instead of bits."""
    qidx = {q: i for i, q in enumerate(circ.qubits)}
    cidx = {c: i for i, c in enumerate(circ.clbits)}
    out = []
    for inst, qargs, cargs in circ.data:
        if inst.name not in CLASSICAL or getattr(inst, 'condition', None) is not None:
            return None
        out.append((inst.name, [qidx[q] for q in qargs], [cidx[c] for c in cargs]))
    return out


def fmt(circ, bits):
    """Bits in the format of counts."""
    parts, pos = [], 0
    for creg in circ.cregs:
        parts.append(''.join(str(b) for b in bits[pos:pos + creg.size])[::-1])
        pos += creg.size
    return ' '.join(parts[::-1])


def raw(circ, faults=(), flips=(), prog=None):
    """Raw string with X before instruction j on qubit q and flipped measurements."""
    prog = prog or program(circ)
    if prog is None:
        return raw_quantum(circ, faults, flips)
    by_place = {}
    for j, q in faults:
        by_place.setdefault(j, []).append(q)
    state = [0] * len(circ.qubits)
    bits = [0] * len(circ.clbits)
    for j, (name, qargs, cargs) in enumerate(prog):
        for q in by_place.get(j, ()):
            state[q] ^= 1
        if name in ('x', 'y'):
            state[qargs[0]] ^= 1
        elif name == 'cx':
            state[qargs[1]] ^= state[qargs[0]]
        elif name == 'measure':
            bits[cargs[0]] = state[qargs[0]] ^ (j in flips)
        elif name == 'reset':
            state[qargs[0]] = 0
    return fmt(circ, bits)


def raw_quantum(circ, faults, flips):
    """The same by a state vector, for circuits with other gates."""
    bad = circ.copy()
    bad.data = []
    for j, (inst, qargs, cargs) in enumerate(circ.data):
        for place, q in faults:
            if place == j:
                bad.x(circ.qubits[q])
        bad.append(inst, qargs, cargs)
        if j in flips:
            raise NotImplementedError('readout flips on non-classical circuits')
    dist = {s: p for s, p in qsim.dist(bad).items() if p > 1e-9}
    assert len(dist) == 1, dist
    bits = [int(c) for c in next(iter(dist))[::-1]]
    return fmt(circ, bits)


def locations(circ):
    """Places of single faults: X before an instruction, or a flipped measurement."""
    prog = program(circ)
    xs, ms = [], []
    qidx = {q: i for i, q in enumerate(circ.qubits)}
    for j, (inst, qargs, _) in enumerate(circ.data):
        for q in qargs:
            xs.append((j, qidx[q]))
        if inst.name == 'measure' and prog is not None:
            ms.append(j)
    return xs, ms


def processed(string, d, rounds):
    """Logical readout and syndrome changes of a raw string."""
    parts = string.split(' ')
    code, links = parts[0], parts[1:][::-1]
    assert len(links) == rounds
    final = ''.join('0' if code[j] == code[j + 1] else '1' for j in range(d - 1))
    prev = '0' * (d - 1)
    changes = []
    for syn in links + [final]:
        changes.append(''.join('0' if a == b else '1' for a, b in zip(prev, syn)))
        prev = syn
    return code[0] + ' ' + code[-1] + '  ' + ' '.join(changes)


def nodes(string):
    """Lit elements (type, round, element) of a processed string."""
    out = []
    for typ, part in enumerate(string.split('  ')):
        for rnd, elements in enumerate(part.split(' ')):
            for num, char in enumerate(elements):
                if char == '1':
                    out.append((typ, rnd, num))
    return out


def combine(strings, log='0'):
    """The processed string of several faults together (XOR of their effects)."""
    base = list(strings[0])
    for other in strings[1:]:
        for i, char in enumerate(other):
            if char == '1':
                base[i] = '0' if base[i] == '1' else '1'
    if log == '1':
        for i in (0, 2):
            base[i] = '0' if base[i] == '1' else '1'
    return ''.join(base)
