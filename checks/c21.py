"""C21: characterisation circuits."""
import itertools
import math

import numpy as np
from qiskit import transpile
from qiskit.circuit.library import U1Gate, U2Gate, XGate, YGate, HGate
from qiskit.ignis.characterization.coherence import t1_circuits, t2_circuits, t2star_circuits
from qiskit.ignis.characterization.hamiltonian import zz_circuits
from qiskit.ignis.characterization.gates import (ampcal_1Q_circuits, anglecal_1Q_circuits,
                                                 ampcal_cx_circuits, anglecal_cx_circuits)
from qiskit.ignis.characterization.coherence import T1Fitter, T2Fitter, T2StarFitter
from qiskit.ignis.characterization.hamiltonian import ZZFitter
from qiskit.ignis.characterization.gates import (AmpCalFitter, AngleCalFitter, AmpCalCXFitter,
                                                 AngleCalCXFitter)
from qiskit.ignis.characterization.characterization_utils import time_to_ngates

from vlib import qsim

ID = 'C21'
BOUNDS = {
    'quick': 'all 40 ordered lists of 1..3 of 4 qubits (and lists with a 6th qubit); gate-number '
             'lists of length 1..4 with values 0..7 (lists and arrays); 2 gate times; 1..5 echoes '
             'with and without alternating phase; 0..3 oscillations; repetitions 1..6; all '
             'pairings of <= 2 qubits with distinct or shared controls/spectators on 4 qubits; '
             'idle gates and repetitions survive the transpiler at levels 0..3; two-digit '
             'qubit numbers, 13 delays, 12 echoes, 12 repetitions',
    'thorough': 'all ordered lists of 1..4 of 5 qubits, 7 echoes, 9 repetitions, 3 pairs',
}
ASSUMPTIONS = ['gate numbers increase and the last is positive when oscillations are induced',
               'controls and spectators are not themselves measured']

X, Y, H = XGate(), YGate(), HGate()
Y90 = U2Gate(0.0, 0.0)
X90 = U2Gate(-math.pi / 2, math.pi / 2)


def seq(*items):
    """Canonical form of expected items: gates, ('id', n), ('cx', role, partner)."""
    out = [np.eye(2, dtype=complex)]
    for item in items:
        if isinstance(item, tuple):
            if item[0] == 'id':
                if item[1] == 0:
                    continue
                if len(out) > 1 and np.allclose(out[-1], np.eye(2)) and out[-2][0] == 'id':
                    out[-2] = ('id', out[-2][1] + item[1])
                    continue
            out.append(item)
            out.append(np.eye(2, dtype=complex))
        else:
            out[-1] = qsim.gate_matrix(item) @ out[-1]
    return out


def actual(circ):
    """Per qubit: items in order, number of pulses, measured bit."""
    qidx = {q: i for i, q in enumerate(circ.qubits)}
    cidx = {c: i for i, c in enumerate(circ.clbits)}
    items = {q: [] for q in range(len(circ.qubits))}
    meas, pulses = {}, {q: 0 for q in items}
    for inst, qargs, cargs in circ.data:
        qs = [qidx[q] for q in qargs]
        if inst.name == 'barrier':
            continue
        if inst.name == 'measure':
            assert qs[0] not in meas, 'measured twice'
            meas[qs[0]] = cidx[cargs[0]]
            continue
        assert not any(q in meas for q in qs), 'gate after the measurement'
        if inst.name in ('id', 'iden'):
            items[qs[0]].append(('id', 1))
        elif inst.name == 'cx':
            items[qs[0]].append(('cx', 'control', qs[1]))
            items[qs[1]].append(('cx', 'target', qs[0]))
        else:
            assert len(qs) == 1, inst.name
            items[qs[0]].append(inst)
            if not np.allclose(np.abs(np.diag(qsim.gate_matrix(inst))), 1):
                pulses[qs[0]] += 1
    return items, pulses, meas


def same(a, b):
    """Canonical sequences are equal up to the phase of each segment."""
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if isinstance(u, tuple) != isinstance(v, tuple):
            return False
        if isinstance(u, tuple):
            if u != v:
                return False
        elif not qsim.same_unitary(u, v):
            return False
    return True


def check_circ(ctx, circ, qubits, want, pulses=None):
    """One circuit against {qubit: items}; measured qubits in list order."""
    items, npulse, meas = actual(circ)
    ctx.equal('measured', meas, {q: k for k, q in enumerate(qubits)})
    ctx.equal('bits', len(circ.clbits), len(qubits))
    for q in items:
        exp = want.get(q, ())
        ctx.check('sequence', same(seq(*items[q]), seq(*exp)),
                  'qubit %d of %s has %s' % (q, circ.name, [
                      i if isinstance(i, tuple) else i.name for i in items[q]]))
        if pulses is not None and q in pulses:
            ctx.equal('pulses', npulse[q], pulses[q])
    for q in want:
        ctx.check('present', q in items, 'qubit %d missing' % q)


def check_x(ctx, xdata, want):
    """x axis."""
    ctx.equal('xlen', len(xdata), len(want))
    for got, exp in zip(xdata, want):
        ctx.close('xdata', float(got), float(exp), 1e-9 * (1 + abs(exp)), 'xdata')


def arr(nums, kind):
    """List or array input."""
    return np.array(nums) if kind == 'array' else list(nums)


def run_t1(case, ctx):
    """X - idle."""
    _, qubits, nums, gate_time, kind = case
    circs, xdata = t1_circuits(arr(nums, kind), gate_time, qubits)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), len(nums))
    check_x(ctx, xdata, [n * gate_time for n in nums])
    for circ, n in zip(circs, nums):
        check_circ(ctx, circ, qubits, {q: [X, ('id', n)] for q in qubits})
    names(ctx, circs, T1Fitter, xdata, qubits)


def run_t2star(case, ctx):
    """H - idle - phase - H."""
    _, qubits, nums, gate_time, kind, nosc = case
    circs, xdata, freq = t2star_circuits(arr(nums, kind), gate_time, qubits, nosc)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), len(nums))
    check_x(ctx, xdata, [n * gate_time for n in nums])
    ctx.close('frequency', freq, nosc / (nums[-1] * gate_time), 1e-9, 'frequency')
    for circ, n in zip(circs, nums):
        phase = U1Gate(2 * math.pi * nosc * n / nums[-1])
        check_circ(ctx, circ, qubits, {q: [H, ('id', n), phase, H] for q in qubits})
    names(ctx, circs, T2StarFitter, xdata, qubits)


def run_t2(case, ctx):
    """CPMG echoes."""
    _, qubits, nums, gate_time, kind, echoes, alt = case
    circs, xdata = t2_circuits(arr(nums, kind), gate_time, qubits, echoes, alt)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), len(nums))
    check_x(ctx, xdata, [2 * n * gate_time * echoes for n in nums])
    for circ, n in zip(circs, nums):
        items = [Y90, ('id', n), Y]
        for k in range(echoes - 1):
            items += [('id', 2 * n), X if alt and k % 2 == 0 else Y]
        items += [('id', n), Y90]
        check_circ(ctx, circ, qubits, {q: items for q in qubits},
                   {q: echoes + 2 for q in qubits})
        total = sum(i[1] for i in items if isinstance(i, tuple))
        ctx.close('total-delay', total * gate_time,
                  float(xdata[list(nums).index(n)]), 1e-9 * (1 + total * gate_time), 'delay')
    names(ctx, circs, T2Fitter, xdata, qubits)


def run_zz(case, ctx):
    """Ramsey with the spectator down, then up."""
    _, qubits, specs, nums, gate_time, kind, nosc = case
    circs, xdata, freq = zz_circuits(arr(nums, kind), gate_time, qubits, specs, nosc)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), 2 * len(nums))
    check_x(ctx, xdata, [n * gate_time for n in nums])
    ctx.close('frequency', freq, nosc / (nums[-1] * gate_time), 1e-9, 'frequency')
    for k, circ in enumerate(circs):
        n = nums[k % len(nums)]
        phase = U1Gate(2 * math.pi * nosc * n / nums[-1])
        want = {q: [H, ('id', n), phase, H] for q in qubits}
        if k >= len(nums):
            want.update({s: [X] for s in specs})
            # excited before the Ramsey sequence starts
            first = [i for i, (inst, qa, _) in enumerate(circ.data) if inst.name == 'h'
                     or inst.name in ('id', 'iden')]
            flips = [i for i, (inst, qa, _) in enumerate(circ.data) if inst.name == 'x'
                     and qa[0].index in specs]
            if first and flips:
                ctx.check('excited-first', max(flips) < min(first), 'spectator flipped late')
        check_circ(ctx, circ, qubits, want)
    names(ctx, circs, ZZFitter, xdata, qubits, ('0', '1'))


def run_amp1(case, ctx):
    """Y90 - (Y90 - Y90)^n."""
    _, qubits, reps = case
    circs, xdata = ampcal_1Q_circuits(reps, qubits)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), reps)
    check_x(ctx, xdata, [2 * n for n in range(reps)])
    for n, circ in enumerate(circs):
        check_circ(ctx, circ, qubits, {q: [Y90] * (2 * n + 1) for q in qubits},
                   {q: 2 * n + 1 for q in qubits})
    names(ctx, circs, AmpCalFitter, xdata, qubits)


def run_ang1(case, ctx):
    """Y90 - (X90 X90 Y90 Y90)^n - X90."""
    _, qubits, reps, err = case
    circs, xdata = anglecal_1Q_circuits(reps, qubits, angleerr=err)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), reps)
    check_x(ctx, xdata, [2 * n for n in range(reps)])
    for n, circ in enumerate(circs):
        neg2, pos2 = U1Gate(-2 * err), U1Gate(2 * err)
        items = [Y90] + [neg2, X90, X90, pos2, Y90, Y90] * n + [neg2, X90]
        check_circ(ctx, circ, qubits, {q: items for q in qubits},
                   {q: 4 * n + 2 for q in qubits})
    names(ctx, circs, AngleCalFitter, xdata, qubits)


def run_ampcx(case, ctx):
    """X(control) - X90(target) - CX^n."""
    _, qubits, controls, reps = case
    circs, xdata = ampcal_cx_circuits(reps, qubits, controls)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), reps)
    check_x(ctx, xdata, range(reps))
    for n, circ in enumerate(circs):
        want = {q: [X90] + [('cx', 'target', c)] * n for q, c in zip(qubits, controls)}
        for c in set(controls):
            want[c] = [X] + [('cx', 'control', q) for q, cc in zip(qubits, controls)
                             for _ in range(n) if cc == c]
        check_circ(ctx, circ, qubits, want)
    names(ctx, circs, AmpCalCXFitter, xdata, qubits)


def run_angcx(case, ctx):
    """X(control) - Y90(target) - (CX - Y)^n - X90."""
    _, qubits, controls, reps, err = case
    circs, xdata = anglecal_cx_circuits(reps, qubits, controls, angleerr=err)
    ctx.step(len(circs))
    ctx.equal('number', len(circs), reps)
    check_x(ctx, xdata, range(reps))
    for n, circ in enumerate(circs):
        want = {}
        for q, c in zip(qubits, controls):
            want[q] = [Y90] + [U1Gate(-err), ('cx', 'target', c), U1Gate(err), Y] * n + [X90]
        for c in set(controls):
            want[c] = [X] + [('cx', 'control', q) for q, cc in zip(qubits, controls)
                             for _ in range(n) if cc == c]
        check_circ(ctx, circ, qubits, want)
    names(ctx, circs, AngleCalCXFitter, xdata, qubits)


def names(ctx, circs, cls, xdata, qubits, series=('0',)):
    """The matching fitter finds the data of every circuit by its name."""
    ctx.equal('names', len({c.name for c in circs}), len(circs))
    n = len(qubits)
    table = [[(37 * k + 11 * q) % 91 + 3 for q in range(n)] for k in range(len(circs))]
    exps = []
    for circ, ones in zip(circs, table):
        # 100 shots, of which ones[q] read 1 on the bit of qubit q
        keys = [''.join('1' if i < ones[q] else '0' for q in reversed(range(n)))
                for i in range(100)]
        exps.append((circ.name, {k: keys.count(k) for k in set(keys)}, dict(width=n)))
    args = ([len(qubits) + 7] * n,) if cls is ZZFitter else ()
    fit = cls(None, xdata, qubits, *args, [0.1] * 5, ([-9] * 5, [9] * 5))
    fit.add_data(qsim.make_result(exps[::-1]), refit=False)
    flip = cls not in (T1Fitter, AmpCalFitter, AmpCalCXFitter, AngleCalFitter, AngleCalCXFitter)
    for i, ser in enumerate(series):
        part = table[i * len(xdata):(i + 1) * len(xdata)]
        for q in range(n):
            want = [abs((100 if flip else 0) - row[q]) / 100 for row in part]
            ctx.close('fitter-finds', fit.ydata[ser][q]['mean'], want, 1e-9)


def run_transpile(case, ctx):
    """Idle gates and repeated gates survive optimisation."""
    _, which, level = case
    qubits = [2, 0]
    if which == 't1':
        circs, want = t1_circuits([1, 4], 0.1, qubits)[0], ('id', [1, 4])
    elif which == 't2star':
        circs, want = t2star_circuits([1, 4], 0.1, qubits, 1)[0], ('id', [1, 4])
    elif which == 't2':
        circs, want = t2_circuits([1, 3], 0.1, qubits, 2, True)[0], ('id', [4, 12])
    elif which == 'zz':
        circs, want = zz_circuits([1, 3], 0.1, qubits, [1, 3], 1)[0], ('id', [1, 3, 1, 3])
    elif which == 'amp':
        circs, want = ampcal_1Q_circuits(3, qubits)[0], ('u2', [1, 3, 5])
    else:
        circs, want = ampcal_cx_circuits(4, qubits, [1, 3])[0], ('cx', [0, 1, 2, 3])
    for circ, num in zip(circs, want[1]):
        out = transpile(circ, basis_gates=['u1', 'u2', 'u3', 'cx', 'id'],
                        optimization_level=level)
        ctx.step()
        got = out.count_ops()
        ctx.equal('survive', got.get(want[0], 0) + (got.get('u3', 0) if want[0] == 'u2' else 0),
                  num * len(qubits))


def run_times(case, ctx):
    """Times to numbers of gates."""
    _, gate_time, nums, shift = case
    got = time_to_ngates([(n + shift) * gate_time for n in nums], gate_time)
    ctx.step()
    ctx.equal('ngates', [int(g) for g in got], nums)


def run_reject(case, ctx):
    """Documented errors."""
    which = case[1]
    ctx.step()
    if which == 'echo':
        for num in (0, -1):
            ctx.raises('reject', ValueError, lambda k=num: t2_circuits([1], 1, [0], k), which)
    elif which == 'length':
        ctx.raises('reject', ValueError, lambda: zz_circuits([1], 1, [0, 1], [2]), which)
        ctx.raises('reject', ValueError, lambda: zz_circuits([1], 1, [0], [1, 2]), which)
    else:
        ctx.raises('reject', ValueError, lambda: zz_circuits([1], 1, [0, 1], [2, 0]), which)


NUMS = [[0, 2], [1], [1, 2, 3], [0, 1, 4, 7]]


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    lists = qsim.ordered_subsets(range(5 if full else 4), (1, 2, 3, 4) if full else (1, 2, 3))
    lists = [list(q) for q in lists] + [[5], [5, 1]]
    for which in ('echo', 'length', 'overlap'):
        yield ['reject', which]
    for gate_time in (0.1, 2, 35e-9):
        for shift in (0, 0.3, -0.3):
            yield ['times', gate_time, [0, 1, 2, 5, 17] if shift >= 0 else [1, 2, 5, 17], shift]
            yield ['times', gate_time, [40000, 1, 70000, 3000000, 17], shift]
    # delays in any order, and repeated ones
    for qubits in ([0], [2, 0]):
        for nums in ([5, 2, 0], [3, 3, 1], [0, 7, 4, 4]):
            for kind in ('list', 'array'):
                yield ['t1', qubits, nums, 0.1, kind]
                yield ['t2', qubits, nums, 0.1, kind, 3, True]
                if nums[-1]:
                    yield ['t2star', qubits, nums, 0.1, kind, 0]
    for qubits in ([0], [2, 1]):
        yield ['amp1', qubits, 24]
        yield ['ang1', qubits, 24, -0.1]
        yield ['ampcx', qubits, [3, 3][:len(qubits)], 24]
        yield ['angcx', qubits, [4, 3][:len(qubits)], 24, 0.1]
    for qubits in lists:
        for gate_time, kind in ((0.1, 'list'), (2, 'array')):
            for nums in NUMS:
                yield ['t1', qubits, nums, gate_time, kind]
                for nosc in (0, 1, 3):
                    yield ['t2star', qubits, nums, gate_time, kind, nosc]
                if len(qubits) < 3 or full:
                    for echoes in range(1, 8 if full else 6):
                        for alt in (False, True):
                            yield ['t2', qubits, nums, gate_time, kind, echoes, alt]
        for reps in range(1, 10 if full else 6, 2):
            yield ['amp1', qubits, reps]
            for err in (0.0, 0.2, -0.35):
                yield ['ang1', qubits, reps, err]
    pairs = []
    for k in (1, 2, 3) if full else (1, 2):
        for qubits in itertools.permutations(range(5 if full else 4), k):
            rest = [q for q in range(5 if full else 4) if q not in qubits]
            for other in itertools.product(rest, repeat=k):
                pairs.append([list(qubits), list(other)])
    for qubits, other in pairs:
        for nums in NUMS:
            for kind, gate_time, nosc in (('list', 0.1, 5), ('array', 2, 1), ('array', 0.3, 0)):
                yield ['zz', qubits, other, nums, gate_time, kind, nosc]
        for reps in (1, 4) if not full else (1, 3, 6):
            yield ['ampcx', qubits, other, reps]
            for err in (0.0, 0.15, -0.25):
                yield ['angcx', qubits, other, reps, err]
    long = [0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13, 20]
    for qubits in ([10], [10, 2], [1, 11, 10]):
        for kind in ('list', 'array'):
            yield ['t1', qubits, long, 0.1, kind]
            yield ['t2star', qubits, long, 0.1, kind, 4]
            for echoes, alt in ((1, False), (2, True), (11, True), (12, False)):
                yield ['t2', qubits, long, 0.1, kind, echoes, alt]
            yield ['zz', qubits, [q - 1 if q - 1 not in qubits else 0 for q in qubits], long, 0.1,
                   kind, 5]
        yield ['amp1', qubits, 12]
        yield ['ang1', qubits, 12, 0.1]
        yield ['ampcx', qubits, [q + 1 if q + 1 not in qubits else 3 for q in qubits], 12]
        yield ['angcx', qubits, [q + 1 if q + 1 not in qubits else 3 for q in qubits], 12, 0.1]
    for which in ('t1', 't2star', 't2', 'zz', 'amp', 'cx'):
        for level in range(4):
            yield ['transpile', which, level]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    ctx.outcome(case[0])
    globals()['run_' + case[0]](case, ctx)
