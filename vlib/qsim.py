"""Exact reference simulation and result construction (reference side).

Trusted: the gate matrices of qiskit-terra.
"""
import itertools

import numpy as np
from qiskit.result import Result

_CACHE = {}


def gate_matrix(inst):
    """Matrix of a (possibly composite) unitary instruction, little endian."""
    key = None
    try:
        key = (type(inst).__name__, inst.name, tuple(float(p) for p in inst.params),
               inst.num_qubits)
        if type(inst).__name__ in ('Instruction', 'Gate', 'ControlledGate', 'QuantumVolume'):
            key = None
        if key in _CACHE:
            return _CACHE[key]
    except (TypeError, ValueError):
        key = None
    from qiskit.quantum_info import Operator
    mat = np.asarray(Operator(inst).data)
    if key is not None:
        _CACHE[key] = mat
    return mat


def apply(state, mat, qubits, n):
    """Apply matrix to listed qubits of a state tensor of shape (2,)*n.

    Axis n-1-q of the tensor is qubit q; mat is little endian on `qubits`.
    """
    k = len(qubits)
    axes = [n - 1 - q for q in reversed(qubits)]
    mat = mat.reshape((2,) * (2 * k))
    state = np.tensordot(mat, state, axes=(list(range(k, 2 * k)), axes))
    return np.moveaxis(state, list(range(k)), axes)


def _idx(circ):
    return {q: i for i, q in enumerate(circ.qubits)}, {c: i for i, c in enumerate(circ.clbits)}


def instructions(circ):
    """[(inst, qubit indices, clbit indices)]"""
    qi, ci = _idx(circ)
    return [(inst, [qi[q] for q in qa], [ci[c] for c in ca]) for inst, qa, ca in circ.data]


def unitary(circ):
    """Unitary of a circuit ignoring barriers; measurements not allowed."""
    n = circ.num_qubits
    dim = 2 ** n
    mat = np.eye(dim, dtype=complex).reshape((2,) * n + (dim,))
    for inst, qs, _ in instructions(circ):
        if inst.name in ('barrier',):
            continue
        if inst.name in ('measure', 'reset'):
            raise ValueError('non unitary')
        k = len(qs)
        axes = [n - 1 - q for q in reversed(qs)]
        m = gate_matrix(inst).reshape((2,) * (2 * k))
        mat = np.tensordot(m, mat, axes=(list(range(k, 2 * k)), axes))
        mat = np.moveaxis(mat, list(range(k)), axes)
    phase = np.exp(1j * float(getattr(circ, 'global_phase', 0)))
    return phase * mat.reshape(dim, dim)


def strip_measure(circ):
    """(circuit without final measures/barriers, {clbit: qubit})."""
    out = circ.copy()
    out.data = []
    meas = {}
    measured = set()
    for inst, qa, ca in circ.data:
        qi, ci = _idx(circ)
        if inst.name == 'measure':
            meas[ci[ca[0]]] = qi[qa[0]]
            measured.add(qi[qa[0]])
        elif inst.name == 'barrier':
            continue
        else:
            if any(qi[q] in measured for q in qa):
                raise ValueError('operation after measurement')
            out.append(inst, qa, ca)
    return out, meas


def run(circ, init=None, faults=None, meas_flips=None):
    """Exact outcome distribution over all clbits: {bits tuple (clbit 0 first): prob}.

    faults: {instruction index: [(matrix, qubits)]} applied *before* that
    instruction (index len(data) = end).  meas_flips: set of instruction
    indices of measurements whose recorded bit is flipped.
    """
    n = circ.num_qubits
    ncl = circ.num_clbits
    if init is None:
        psi = np.zeros((2,) * n, dtype=complex)
        psi[(0,) * n] = 1
    else:
        psi = np.asarray(init, dtype=complex).reshape((2,) * n)
    branches = {(0,) * ncl: [psi]}   # clbits -> list of unnormalised pure states
    faults = faults or {}
    meas_flips = meas_flips or set()

    def each(fun):
        new = {}
        for bits, states in branches.items():
            for st in states:
                for nb, ns in fun(bits, st):
                    new.setdefault(nb, []).append(ns)
        return new
    insts = instructions(circ)
    for pos in range(len(insts) + 1):
        for mat, qs in faults.get(pos, []):
            branches = each(lambda b, s, mat=mat, qs=qs: [(b, apply(s, mat, qs, n))])
        if pos == len(insts):
            break
        inst, qs, cs = insts[pos]
        if inst.name == 'barrier':
            continue
        if getattr(inst, 'condition', None) is not None:
            raise ValueError('conditions not supported')
        if inst.name in ('measure', 'reset'):
            ax = n - 1 - qs[0]

            def proj(bits, st, inst=inst, ax=ax, cs=cs, pos=pos):
                out = []
                for val in (0, 1):
                    sel = [slice(None)] * n
                    sel[ax] = val
                    part = st[tuple(sel)]
                    if np.vdot(part, part).real < 1e-14:
                        continue
                    ns = np.zeros_like(st)
                    if inst.name == 'measure':
                        ns[tuple(sel)] = part
                        nb = list(bits)
                        nb[cs[0]] = val ^ (1 if pos in meas_flips else 0)
                        out.append((tuple(nb), ns))
                    else:
                        sel[ax] = 0
                        ns[tuple(sel)] = part
                        out.append((bits, ns))
                return out
            branches = each(proj)
        else:
            mat = gate_matrix(inst)
            branches = each(lambda b, s, mat=mat, qs=qs: [(b, apply(s, mat, qs, n))])
    out = {}
    for bits, states in branches.items():
        prob = sum(float(np.vdot(s, s).real) for s in states)
        if prob > 1e-13:
            out[bits] = prob
    return out


def dist(circ, **kw):
    """{bit string, clbit 0 rightmost: prob}"""
    return {''.join(str(b) for b in reversed(bits)): p for bits, p in run(circ, **kw).items()}


def same_dist(a, b, tol=1e-9):
    """Compare two distributions."""
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def same_unitary(a, b, tol=1e-8):
    """Equality up to a global phase."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    idx = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[idx]) < 1e-6:
        return False
    ph = a[idx] / b[idx]
    if abs(abs(ph) - 1) > 1e-6:
        return False
    return np.max(np.abs(a - ph * b)) < tol


def make_result(experiments, success=True, **kw):
    """Build a Result from [(name, counts dict by bit string, extra dict)].

    counts keys are bit strings without spaces (clbit 0 rightmost); extra may
    hold creg_sizes, metadata, shots.
    """
    exps = []
    for item in experiments:
        name, counts = item[0], item[1]
        extra = item[2] if len(item) > 2 else {}
        width = extra.get('width') or max(len(k.replace(' ', '')) for k in counts)
        hexc = {}
        for k, v in counts.items():
            h = hex(int(k.replace(' ', ''), 2))
            hexc[h] = hexc.get(h, 0) + v
        header = dict(name=name, memory_slots=width,
                      creg_sizes=extra.get('creg_sizes', [['c', width]]))
        if 'metadata' in extra:
            header['metadata'] = extra['metadata']
        exps.append(dict(shots=extra.get('shots', sum(counts.values())), success=True,
                         status='DONE', meas_level=2, header=header,
                         data=dict(counts=hexc)))
    return Result.from_dict(dict(backend_name='ref', backend_version='0', qobj_id='q',
                                 job_id='j', success=success, status='COMPLETED',
                                 results=exps))


def make_iq_result(experiments):
    """Level-1 results: [(name, memory array complex (shots,slots) or (slots,), shots)]"""
    exps = []
    for name, mem, shots in experiments:
        mem = np.asarray(mem)
        ret = 'avg' if mem.ndim == 1 else 'single'
        data = np.stack([mem.real, mem.imag], axis=-1).tolist()
        exps.append(dict(shots=shots, success=True, status='DONE', meas_level=1,
                         meas_return=ret,
                         header=dict(name=name, memory_slots=mem.shape[-1]),
                         data=dict(memory=data)))
    return Result.from_dict(dict(backend_name='ref', backend_version='0', qobj_id='q',
                                 job_id='j', success=True, status='COMPLETED',
                                 results=exps))


def bitstrings(n):
    """All n-bit strings in numeric order."""
    return [''.join(b) for b in itertools.product('01', repeat=n)]


def ordered_subsets(items, sizes):
    """All ordered selections of the given sizes."""
    for k in sizes:
        yield from itertools.permutations(items, k)


def set_partitions(items):
    """All partitions of a list into blocks."""
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for part in set_partitions(rest):
        for i in range(len(part)):
            yield part[:i] + [[first] + part[i]] + part[i + 1:]
        yield [[first]] + part


def compositions(items, maxparts):
    """All ways to cut a sequence into consecutive non-empty parts."""
    items = list(items)
    n = len(items)
    for k in range(1, min(maxparts, n) + 1):
        for cuts in itertools.combinations(range(1, n), k - 1):
            idx = [0] + list(cuts) + [n]
            yield [items[idx[i]:idx[i + 1]] for i in range(k)]


def rational_stochastic(n, seed_int, denom):
    """Deterministic asymmetric column-stochastic integer matrix (columns sum to denom).

    Diagonally dominant, no symmetries; a fixed family indexed by seed_int.
    """
    mat = np.zeros((n, n), dtype=int)
    for j in range(n):
        rem = denom
        for i in range(n):
            if i == j:
                continue
            val = ((i + 2) * (j + 3) * 7 + (i + 1) * 5 * (seed_int + 1) + 3 * seed_int * j) % 11
            val = int(val * denom / (11 * 3 * max(1, n - 1)))
            mat[i, j] = val
            rem -= val
        mat[j, j] = rem
    return mat


def ordered_partitions(items, maxparts):
    """All ways to distribute items over 1..maxparts non-empty ordered parts."""
    items = list(items)
    for k in range(1, maxparts + 1):
        for assign in itertools.product(range(k), repeat=len(items)):
            if len(set(assign)) == k:
                yield [[x for x, a in zip(items, assign) if a == i] for i in range(k)]
