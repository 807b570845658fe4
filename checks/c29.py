"""C29: independent uses do not interfere and inputs stay as they were."""
import copy
import itertools
import os
import pickle
import signal
import struct
import threading
import traceback

import matplotlib
matplotlib.use('Agg')
import numpy as np  # noqa: E402
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister, pulse  # noqa: E402
from qiskit.circuit import Instruction  # noqa: E402
from qiskit.circuit.library import HGate, U3Gate  # noqa: E402
from qiskit.result import Result  # noqa: E402
from qiskit.quantum_info import Clifford, Choi  # noqa: E402
from qiskit.ignis.characterization import coherence, gates as chargates, hamiltonian  # noqa: E402
from qiskit.ignis.characterization.calibrations import (rabi_schedules, drag_schedules,  # noqa: E402
                                                        update_u_gates)
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter  # noqa: E402
from qiskit.ignis.measurement.discriminator.iq_discriminators import (  # noqa: E402
    LinearIQDiscriminator, QuadraticIQDiscriminator)
from qiskit.ignis.mitigation import expval  # noqa: E402
from qiskit.ignis.mitigation import measurement as meas  # noqa: E402
from qiskit.ignis.mitigation.expval import (CTMPExpvalMeasMitigator,  # noqa: E402
                                            CompleteExpvalMeasMitigator,
                                            TensoredExpvalMeasMitigator)
from qiskit.ignis.verification import entanglement as ent  # noqa: E402
from qiskit.ignis.verification import quantum_volume as qv  # noqa: E402
from qiskit.ignis.verification import randomized_benchmarking as rb  # noqa: E402
from qiskit.ignis.verification import tomography as tomo  # noqa: E402
from qiskit.ignis.verification.accreditation import (  # noqa: E402
    AccreditationCircuits, AccreditationFitter, QOTP, QOTPCorrectCounts)
from qiskit.ignis.verification import topological_codes as topo  # noqa: E402

from checks import c04, c06, c09, c10, c11, c14, c15, c16, c17, c18, c20, c22, c23, c26, c27  # noqa: E402
from checks import c28  # noqa: E402
from vlib import qsim  # noqa: E402

ID = 'C29'
CASE_TIMEOUT = 600
BOUNDS = {
    'quick': 'alphabet of 49 kinds of use (every module but logging), each with two different sets '
             'of inputs; every use alone: twice, with shared inputs, with data added to one of two '
             'objects; every use followed by every kind, and by both uses of each kind of its own '
             'module; each history in its own process',
    'thorough': 'every ordered pair of all 98 uses, and every ordered triple within the uses of a '
                'module',
}
ASSUMPTIONS = ['a use alone in a fresh process is the oracle of the same use after others',
               'random choices are seeded by the documented seed arguments',
               'automatically numbered names of circuits and pulses are not part of the answers']


# ------------------------------------------------------------------ values

def circ_value(circ):
    """Gates, registers."""
    ops = []
    for inst, qubits, clbits in qsim.instructions(circ):
        ops.append((inst.name, [plain(p) for p in inst.params], list(qubits), list(clbits)))
    return [circ.num_qubits, [r.size for r in circ.cregs], ops]


def sched_value(sched):
    """Timed instructions of a schedule."""
    out = []
    for time, inst in sched.instructions:
        item = [time, type(inst).__name__, str(getattr(inst, 'channel', None))]
        if isinstance(inst, pulse.Play):
            item.append(np.array(inst.pulse.samples if hasattr(inst.pulse, 'samples')
                                 else inst.pulse.get_sample_pulse().samples))
        elif hasattr(inst, 'phase'):
            item.append(float(inst.phase))
        elif isinstance(inst, pulse.Acquire):
            item.append((inst.duration, inst.mem_slot.index))
        out.append(plain(item))
    return sorted(out, key=repr)


def plain(obj):
    """Comparable form of an input or an answer."""
    if obj is None or isinstance(obj, (bool, str, int, float, complex)):
        return obj
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, np.ndarray):
        obj = np.asarray(obj)
        return ['array', str(obj.dtype), [plain(x) for x in obj]] if obj.ndim else obj.item()
    if isinstance(obj, QuantumCircuit):
        return circ_value(obj)
    if isinstance(obj, pulse.Schedule):
        return sched_value(obj)
    if isinstance(obj, Result):
        return plain(obj.to_dict())
    if isinstance(obj, Choi):
        return plain(obj.data)
    if isinstance(obj, Clifford):
        return plain(np.array(obj.table.array)), plain(np.array(obj.table.phase))
    if isinstance(obj, rb.CNOTDihedral):
        return [plain(obj.poly.weight_0), plain(obj.poly.weight_1), plain(obj.poly.weight_2),
                plain(obj.poly.weight_3), plain(obj.linear), plain(obj.shift)]
    if isinstance(obj, dict):
        return {'dict': sorted([[repr(plain(k)), plain(v)] for k, v in obj.items()],
                               key=lambda kv: kv[0])}
    if isinstance(obj, (list, tuple)):
        return [plain(x) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return ['set'] + sorted([plain(x) for x in obj], key=repr)
    if isinstance(obj, Instruction):
        return [obj.name, [plain(p) for p in obj.params]]
    try:
        return float(obj)
    except (TypeError, ValueError):
        return '<%s>' % type(obj).__name__


def differ(one, two, tol=1e-7):
    """None or a description of the first difference."""
    if isinstance(one, (bool, str, type(None))) or isinstance(two, (bool, str, type(None))):
        return None if one == two else '%r instead of %r' % (one, two)
    if isinstance(one, (int, float, complex)) and isinstance(two, (int, float, complex)):
        if one != one and two != two:
            return None
        if one == two or abs(one - two) <= tol * max(1, abs(two)):
            return None
        return '%r instead of %r' % (one, two)
    if isinstance(one, dict) and isinstance(two, dict):
        return differ(one['dict'], two['dict'], tol)
    if isinstance(one, (list, tuple)) and isinstance(two, (list, tuple)):
        if len(one) != len(two):
            return '%d items instead of %d' % (len(one), len(two))
        for x, y in zip(one, two):
            out = differ(x, y, tol)
            if out:
                return out
        return None
    return '%r instead of %r' % (one, two)


# ------------------------------------------------------------------ the alphabet of uses

class Use:
    """inp: inputs; make(inp): the object; ask(obj, inp): its answers; grow(obj, inp): more data."""

    def __init__(self, inp, make, ask=None, grow=None, tol=1e-7):
        self.inp, self.make, self.tol = inp, make, tol
        self.ask = ask or (lambda obj, inp: obj)
        self.grow = grow


USES = {}


def use(module):
    """Register a use."""
    def deco(func):
        USES[func.__name__[2:]] = (module, func)
        return func
    return deco


def cal_exps(n, salt, prefix='cal_', labels=None):
    """Calibration counts."""
    out = []
    for lab in labels or qsim.bitstrings(n):
        j = int(lab, 2)
        counts = {format(i, '0%db' % n): (i * 31 + j * 17 + salt * 7) % 23 + (250 if i == j else 1)
                  for i in range(2 ** n)}
        out.append((prefix + lab, counts, dict(width=n)))
    return out


def listed(v, exps):
    """A Result, or a list of two."""
    if v:
        half = len(exps) // 2
        return [qsim.make_result(exps[:half]), qsim.make_result(exps[half:])]
    return qsim.make_result(exps)


COUNTS = [{'00': 300, '01': 40, '10': 90, '11': 570}, {'000': 10, '011': 200, '110': 31, '111': 60}]


def filter_answers(flt, inp, num):
    """Mitigated counts in all forms."""
    counts = inp['counts']
    res = inp['result']
    fit = flt.apply(counts, method='least_squares')     # found by a search from a random start
    return [flt.apply(counts, method='pseudo_inverse'),
            [fit.get(s, 0) / sum(counts.values()) / 10 for s in qsim.bitstrings(num)],
            plain(flt.apply(res, method='pseudo_inverse').to_dict())]


@use('meas')
def u_complete_cal(v):
    n = 2 + v
    inp = dict(qubits=[[1, 0], [2, 0, 3]][v], label=['x', ''][v])
    return Use(inp, lambda i: meas.complete_meas_cal(qubit_list=i['qubits'], qr=6,
                                                     circlabel=i['label'])
               if n else None)


@use('meas')
def u_tensored_cal(v):
    inp = dict(pattern=[[[0], [1, 2]], [[3, 1], [2]]][v])
    return Use(inp, lambda i: meas.tensored_meas_cal(mit_pattern=i['pattern'], qr=5, circlabel='m'))


@use('meas')
def u_complete_fitter(v):
    n = 2 + v
    inp = dict(results=listed(v, cal_exps(n, v)), more=qsim.make_result(cal_exps(n, v + 3)),
               labels=qsim.bitstrings(n), counts=dict(COUNTS[v]),
               result=qsim.make_result([('a', COUNTS[v], dict(width=n))]))

    def ask(fit, i):
        sub = fit.subset_fitter([1, 0])
        return [fit.cal_matrix, fit.readout_fidelity(), sub.cal_matrix,
                filter_answers(fit.filter, i, n),
                fit.readout_fidelity([i['labels'][:1], i['labels'][1:]])]
    return Use(inp, lambda i: meas.CompleteMeasFitter(i['results'], i['labels']), ask,
               lambda fit, i: fit.add_data(i['more']), 1e-4)


@use('meas')
def u_tensored_fitter(v):
    n = 2 + v
    inp = dict(results=listed(v, cal_exps(n, v + 1, labels=['0' * n, '1' * n] if not v
                                          else qsim.bitstrings(3))),
               pattern=[[[0], [1]], [[2, 0], [1]]][v], counts=dict(COUNTS[v]),
               more=qsim.make_result(cal_exps(n, v + 5, labels=['0' * n, '1' * n] if not v
                                              else qsim.bitstrings(3))),
               result=qsim.make_result([('a', COUNTS[v], dict(width=n))]))
    return Use(inp, lambda i: meas.TensoredMeasFitter(i['results'], i['pattern']),
               lambda fit, i: [fit.cal_matrices, fit.readout_fidelity(0), fit.substate_labels_list,
                               filter_answers(fit.filter, i, n)],
               lambda fit, i: fit.add_data(i['more']), 1e-4)


@use('expval')
def u_expval_circuits(v):
    inp = dict(labels=[None, ['00', '11', '01']][v])
    return Use(inp, lambda i: expval.expval_meas_mitigator_circuits(
        2 + (v == 0), 'CTMP' if v else 'tensored', labels=i['labels']))


def expval_answers(mit, inp):
    """All kinds of question."""
    three = inp['three']
    return [mit.expectation_value(inp['counts'], qubits=[0, 1]),
            mit.expectation_value(inp['counts'], diagonal=inp['diag'], qubits=[1, 0]),
            mit.expectation_value(three, qubits=[1], clbits=[2]),
            mit.mitigation_matrix(), mit.assignment_matrix([1]), mit.mitigation_matrix([1, 0]),
            mit.mitigation_overhead([0]), mit.required_shots(0.1), mit.assignment_fidelity([1])]


EXP = dict(counts={'00': 5, '01': 4, '10': 9}, diag=[1., 2., -3., 4.],
           three={'000': 5, '011': 4, '110': 9, '101': 1, '111': 8})


def expval_use(method, v):
    """Mitigators from data."""
    n = 2 + v
    mat = c04.kron([c04.one_qubit(q, v) for q in range(n)])
    labels = qsim.bitstrings(n)
    res, meta = c06.data(mat, n, labels, method, foreign=bool(v))
    inp = dict(copy.deepcopy(EXP), result=res, meta=meta)

    def make(i):
        return expval.ExpvalMeasMitigatorFitter(i['result'], i['meta']).fit(method)

    def ask(mit, i):
        if method == 'CTMP':
            return [mit.mitigation_matrix(), mit.assignment_matrix([1]), mit.generator_matrix()
                    .todense() if hasattr(mit, 'generator_matrix') else None]
        return expval_answers(mit, i)
    return Use(inp, make, ask)


@use('expval')
def u_expval_complete(v):
    return expval_use('complete', v)


@use('expval')
def u_expval_tensored(v):
    return expval_use('tensored', v)


@use('expval')
def u_expval_ctmp(v):
    return expval_use('CTMP', v)


@use('expval')
def u_mitigator_matrices(v):
    inp = dict(copy.deepcopy(EXP), mats=[c04.one_qubit(q, v) for q in range(3)],
               full=c04.full_matrix(2 + v, 1 + v))

    def make(i):
        return [TensoredExpvalMeasMitigator(i['mats']), CompleteExpvalMeasMitigator(i['full'])]
    return Use(inp, make, lambda mits, i: [expval_answers(m, i) for m in mits])


@use('expval')
def u_ctmp_generators(v):
    gens = [('0', '1', [q]) for q in range(2)] + [('1', '0', [q]) for q in range(2)] + \
        [('01', '10', [0, 1]), ('11', '00', [1, 0])][v:]
    inp = dict(copy.deepcopy(EXP), gens=gens, rates=[0.02 + 0.01 * v + 0.013 * i
                                                     for i in range(len(gens))])

    def ask(mit, i):
        mit.seed(7 + v)
        one = mit.expectation_value(i['counts'], qubits=[0, 1])
        mit.seed(7 + v)
        two = mit.expectation_value(i['counts'], diagonal=i['diag'], qubits=[1, 0])
        return [mit.mitigation_matrix(), mit.assignment_matrix([1]), one, two,
                mit.mitigation_overhead(), mit.required_shots(0.1)]
    return Use(inp, lambda i: CTMPExpvalMeasMitigator(i['gens'], i['rates']), ask)


@use('expval')
def u_expectation_value(v):
    inp = dict(copy.deepcopy(EXP))
    return Use(inp, lambda i: [expval.expectation_value(i['counts']),
                               expval.expectation_value(i['counts'], diagonal=i['diag']),
                               expval.expectation_value(i['three'], clbits=[2 - v, 0])])


@use('tomo')
def u_state_circuits(v):
    inp = dict(circ=c09.build(2, ['one', 'creg'][v], 'gen', .3 + v), qubits=[[0], [1, 0]][v])
    return Use(inp, lambda i: [[c.name, c] for c in
                               tomo.state_tomography_circuits(i['circ'], i['qubits'])])


@use('tomo')
def u_state_fitter(v):
    circ = c09.build(2, ['one', 'creg'][v], 'gen', .3 + v)
    circs = tomo.state_tomography_circuits(circ, [[0], [1, 0]][v])
    res = qsim.make_result([c09.experiment(c) for c in circs])
    more = qsim.make_result([c09.experiment(c, 10 ** 5) for c in circs])
    inp = dict(result=[res] if v else res, circs=circs, more=more)
    return Use(inp, lambda i: tomo.StateTomographyFitter(i['result'], i['circs']),
               lambda fit, i: [fit.fit(method='lstsq'), fit.data,
                               fit.fit(method='lstsq', standard_weights=False)],
               lambda fit, i: fit.add_data([i['more']], i['circs']), 1e-4)


@use('tomo')
def u_state_convex(v):
    circ = c09.build(1, 'one', 'gen', .5 + v)
    circs = tomo.state_tomography_circuits(circ, [0])
    res = qsim.make_result([c09.experiment(c, 4096) for c in circs])
    return Use(dict(result=res, circs=circs),
               lambda i: tomo.StateTomographyFitter(i['result'], i['circs']),
               lambda fit, i: fit.fit(method='cvx'), tol=1e-2)


@use('tomo')
def u_process_circuits(v):
    inp = dict(circ=c10.make(2, c10.KINDS[v] if hasattr(c10, 'KINDS') else 'cx', 0, [0, 1]),
               labels=('SIC', tuple(c10.SIX[:4]))[v])

    def make(i):
        kw = dict(prep_labels='SIC', prep_basis='SIC') if not v else {}
        return [[c.name, c] for c in tomo.process_tomography_circuits(i['circ'], [v], **kw)]
    return Use(inp, make)


@use('tomo')
def u_process_fitter(v):
    circ = QuantumCircuit(1)
    circ.u3(0.4 + v, 0.3, 0.9, 0)
    circs, fkw = c10.generate(circ, [0], None, ['SIC', 'six'][v])
    res = qsim.make_result([c10.experiment(c) for c in circs])
    more = qsim.make_result([c10.experiment(c, 10 ** 5) for c in circs])
    return Use(dict(result=res, circs=circs, more=more),
               lambda i: tomo.ProcessTomographyFitter(i['result'], i['circs'], **fkw),
               lambda fit, i: [fit.fit(method='lstsq'), fit.data],
               lambda fit, i: fit.add_data([i['more']], i['circs']), 1e-4)


@use('tomo')
def u_gst(v):
    name = ['default', 'gates'][v] if 'gates' in c11.BASES else 'default'
    basis = c11.make_basis(name)[0]
    probs = c11.probs_of(name, 1 + v)
    exps = [(str(k), {'0': int(round(p * 1e6)), '1': 10 ** 6 - int(round(p * 1e6))}, dict(width=1))
            for k, p in probs.items()]
    inp = dict(result=qsim.make_result(exps), spam=dict(basis.spam_labels) if isinstance(
        basis.spam_labels, dict) else list(basis.spam_labels), gates=list(basis.gate_labels))

    def make(i):
        circs = tomo.gateset_tomography_circuits(gateset_basis=basis)
        return tomo.GatesetTomographyFitter(i['result'], circs, basis), circs

    def ask(obj, i):
        fit, circs = obj
        return [{k: np.array(m) for k, m in fit.linear_inversion().items()},
                [c.name for c in circs], list(basis.gate_labels)]
    return Use(inp, make, ask)


@use('tomo')
def u_gate_basis(v):
    names = ['Id', 'X_Rot_90', 'Y_Rot_90'] + ['Z'] * v

    def put(angle):
        return lambda circ, qubit: circ.append(U3Gate(*angle), [qubit])
    angles = dict(zip(['Id', 'X_Rot_90', 'Y_Rot_90', 'Z'],
                      [(0, 0, 0), (np.pi / 2, -np.pi / 2, np.pi / 2), (np.pi / 2, 0, 0),
                       (0, 0, np.pi)]))
    inp = dict(gates={n: put(angles[n]) for n in names},
               spam={'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',),
                     'F3': ('X_Rot_90', 'X_Rot_90')})

    def ask(basis, _):
        circs = tomo.gateset_tomography_circuits(gateset_basis=basis)
        return [list(basis.gate_labels), sorted(basis.gates), basis.gate_matrices,
                [[c.name, c] for c in circs], sorted(basis.spam_labels)]

    def grow(basis, _):
        basis.add_gate(put((0.1, 0.2, 0.3)), 'new')
    return Use(inp, lambda i: tomo.basis.GateSetBasis('mine', i['gates'], i['spam']), ask, grow)


@use('tomo')
def u_default_basis(v):
    def grow(basis, _):
        basis.add_gate(HGate(), 'more')
    return Use({}, lambda _: tomo.basis.default_gateset_basis(),
               lambda b, _: [list(b.gate_labels), sorted(b.gates), b.gate_matrices,
                             [c.name for c in tomo.gateset_tomography_circuits([v],
                                                                               gateset_basis=b)]],
               grow)


@use('tomo')
def u_bases(v):
    def make(_):
        base = tomo.basis.PauliBasis if not v else tomo.basis.SICBasis
        reg, creg = QuantumRegister(2, 'q'), ClassicalRegister(2, 'c')
        out = []
        for lab in ('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm') if not v else ('S0', 'S1', 'S2', 'S3'):
            out += [base.preparation_matrix(lab), base.preparation_circuit(lab, reg[1])]
        for lab in 'XYZ' if not v else '':
            out += [base.measurement_matrix(lab, 1), base.measurement_circuit(lab, reg[0], creg[1])]
        return out
    return Use({}, make)


def rb_kwargs(v, **kw):
    """Arguments of the RB generators."""
    out = dict(nseeds=1 + v, length_vector=[[1, 3], [2, 4]][v], rb_pattern=[[[0]], [[1, 0], [2]]][v],
               length_multiplier=[1, [1, 2]][v], rand_seed=5 + v, seed_offset=v)
    out.update(kw)
    return out


def rb_use(**more):
    """A generator."""
    def func(v):
        inp = rb_kwargs(v)
        for key, val in more.items():
            inp[key] = val[v] if isinstance(val, list) else val()[v]

        def make(i):
            out = rb.randomized_benchmarking_seq(**i)
            return [[[c.name, c] for row in part for c in row] if isinstance(part[0][0], QuantumCircuit)
                    else part for part in [p for p in out if len(p)]]
        return Use(inp, make)
    return func


def elems():
    """Interleaved elements."""
    one = QuantumCircuit(1)
    one.h(0)
    two = QuantumCircuit(2)
    two.cx(0, 1)
    other = QuantumCircuit(1)
    other.s(0)
    return [[one], [two, Clifford(other)]]


def delems():
    """Interleaved CNOT-dihedral elements."""
    one = QuantumCircuit(1)
    one.t(0)
    two = QuantumCircuit(2)
    two.cx(0, 1)
    two.t(1)
    return [[one], [two, rb.CNOTDihedral(1).from_circuit(one)]]


@use('rb')
def u_rb_seq(v):
    return rb_use()(v)


@use('rb')
def u_rb_interleaved(v):
    return rb_use(interleaved_elem=elems)(v)


@use('rb')
def u_rb_dihedral(v):
    return rb_use(group_gates=['CNOT-Dihedral', '1'], interleaved_elem=delems)(v)


@use('rb')
def u_rb_purity(v):
    inp = dict(nseeds=1, length_vector=[[1, 2], [3]][v], rb_pattern=[[[1]], [[0, 1]]][v],
               rand_seed=3 + v, is_purity=True)

    def make(i):
        out = rb.randomized_benchmarking_seq(**i)
        return [[[[c.name, c] for c in row] for row in seed] for seed in out[0]], out[1]
    return Use(inp, make)


def rb_answers(fit):
    """Answers of a fitter."""
    return [fit.raw_data, fit.ydata, fit.fit, fit.cliff_lengths, fit.seeds
            if hasattr(fit, 'seeds') else None]


def rb_fit_use(kind, v):
    """A fitter with data added later."""
    pattern = [[[0]], [[1], [0, 2]]][v]
    nlen, seeds = 5 + v, [0, 1]
    lengths = c14.lengths_for(pattern, nlen)
    if kind == 'rb':
        exps = c14.all_experiments('std', pattern, seeds + [2], nlen)
        inp = dict(result=[c14.result_of(pattern, [e for k, e in exps.items() if k[0] == s])
                           for s in (0, 1)] if v else
                   c14.result_of(pattern, [e for k, e in exps.items() if k[0] < 2]),
                   more=c14.result_of(pattern, [e for k, e in exps.items() if k[0] == 2]),
                   lengths=lengths, pattern=pattern)
        return Use(inp, lambda i: rb.RBFitter(i['result'], i['lengths'], i['pattern']),
                   lambda fit, i: rb_answers(fit),
                   lambda fit, i: fit.add_data([i['more']]), 1e-4)
    one, two, cls, _ = c14.TWO[kind]
    sets = [c14.all_experiments(k, pattern, seeds, nlen, alpha)
            for k, alpha in ((one, 0.95), (two, 0.9))]
    results = [c14.result_of(pattern, list(exps.values())) for exps in sets]
    inp = dict(one=results[0], two=results[1], lengths=lengths, pattern=pattern)
    return Use(inp, lambda i: cls(i['one'], i['two'], i['lengths'], i['pattern']),
               lambda fit, i: [fit.ydata, fit.fit, fit.fit_int if hasattr(fit, 'fit_int') else
                               fit.fit_cnotdihedral if hasattr(fit, 'fit_cnotdihedral') else None],
               tol=1e-4)


@use('rbfit')
def u_rb_fitter(v):
    return rb_fit_use('rb', v)


@use('rbfit')
def u_rb_fitter_two(v):
    return rb_fit_use(sorted(c14.TWO)[0], v)


@use('rbfit')
def u_rb_fitter_other(v):
    return rb_fit_use(sorted(c14.TWO)[-1], v)


@use('rbfit')
def u_rb_fitter_purity(v):
    pattern = [[[0]], [[0, 1]]][v]
    seeds, nlen = [0, 1][:2 - v], 5
    exps = c14.pur_experiments(pattern, seeds, nlen)
    nq = len(pattern[0])
    bases = [''.join(reversed(b)) for b in itertools.product('ZXY', repeat=nq)]
    std = [c14.result_of(pattern, [exps[s, b, k] for k in range(nlen)])
           for s in seeds for b in bases]
    inp = dict(results=std, lengths=[[1 + 3 * k for k in range(nlen)]], pattern=pattern)
    return Use(inp, lambda i: rb.PurityRBFitter(i['results'], 3 ** nq, i['lengths'], i['pattern']),
               lambda fit, i: [fit.ydata, fit.fit, fit.fit_pur if hasattr(fit, 'fit_pur') else None],
               tol=1e-4)


@use('rbfit')
def u_rb_utils(v):
    circs = [[c15.build('one', c15.LISTS[i]) for i in (1 + v, 3 + v)]]
    gpc = {0: {'u1': .1, 'u2': .5, 'u3': .4, 'cx': 1.5}, 1: {'u1': .1, 'u2': .3, 'u3': .6, 'cx': 1.5}}
    inp = dict(circs=circs, lengths=[2, 5], basis=['u1', 'u2', 'u3', 'cx'], qubits=[0, 1 + v],
               gpc=gpc, gpc1={q: {g: x for g, x in gpc[q].items() if g != 'cx'} for q in gpc},
               epgs=[{'u1': 0, 'u2': 1e-3, 'u3': 2e-3}, {'u1': 0, 'u2': 2e-3, 'u3': 4e-3}],
               t1=[50., 60.], t2=[40., 70.])

    def make(i):
        ru = rb.rb_utils
        return [ru.gates_per_clifford(i['circs'], i['lengths'], i['basis'], i['qubits']),
                ru.calculate_1q_epg(i['gpc1'], 1e-3, v),
                ru.calculate_1q_epc(i['gpc1'], i['epgs'][v], v),
                ru.calculate_2q_epg(i['gpc'], 1e-2, [0, 1], i['epgs']),
                ru.calculate_2q_epc(i['gpc'], 1e-2, [v, 1 - v], i['epgs']),
                ru.coherence_limit(2, i['t1'], i['t2'], 0.1 + v)]
    return Use(inp, make)


@use('rb')
def u_dihedral(v):
    circ = QuantumCircuit(2 + v)
    circ.t(0)
    circ.cx(0, 1)
    circ.x(v)
    circ.s(1)
    inp = dict(circ=circ, one=rb.CNOTDihedral(2 + v), two=rb.CNOTDihedral(1),
               elem=rb.CNOTDihedral(2 + v).from_circuit(circ))

    def make(i):
        elem = i['elem']
        other = elem.compose(elem)
        return [elem, other, elem.tensor(i['two']), elem.inverse() if hasattr(elem, 'inverse')
                else elem.adjoint(), elem.to_circuit(), i['one'].compose(elem),
                rb.CNOTDihedral(2 + v).from_circuit(i['circ']),
                rb.random_cnotdihedral(1 + v, seed=4) if hasattr(rb, 'random_cnotdihedral') else None]
    return Use(inp, make)


@use('qv')
def u_qv_circuits(v):
    inp = dict(lists=[[[0, 1]], [[1, 0], [2, 0, 1]]][v])

    def make(i):
        out, nomeas = qv.qv_circuits(i['lists'], ntrials=1 + v, seed=7 + v)
        return [[[c.name, c] for c in row] for row in out + nomeas]
    return Use(inp, make, tol=1e-5)


@use('qv')
def u_qv_fitter(v):
    lists = [[[0, 1]], [[1, 0], [2, 0, 1]]][v]
    depths = [len(q) for q in lists]
    name = 'qv_depth_%d_trial_%d'

    def data(trials):
        keys = [(d, t) for t in trials for d in depths]
        return (qsim.make_result([(name % k, c28.qv_counts(*k), dict(width=k[0])) for k in keys]),
                c16.sv_result([(name % k, c16.state_of(c28.qv_weights(*k))) for k in keys]))
    res, ideal = data(range(2 + v))
    res2, ideal2 = data(range(2 + v, 4 + v))
    inp = dict(res=[res] if v else res, ideal=[ideal] if v else ideal, lists=lists, res2=res2,
               ideal2=ideal2)

    def grow(fit, i):
        fit.add_statevectors(i['ideal2'])
        fit.add_data(i['res2'])
    return Use(inp, lambda i: qv.QVFitter(i['res'], i['ideal'], i['lists']),
               lambda fit, i: [fit.ydata, fit.heavy_outputs, fit.heavy_output_counts,
                               fit.heavy_output_prob_ideal, fit.qv_success(), fit.quantum_volume()],
               grow)


@use('char')
def u_char_circuits(v):
    inp = dict(nums=[1, 4, 9][v:], qubits=[[0, 2], [1]][v], spect=[[1, 3], [0]][v],
               array=np.array([2, 6]))

    def make(i):
        out = [coherence.t1_circuits(i['nums'], 2., i['qubits']),
               coherence.t2_circuits(i['nums'], 2., i['qubits'], 2, bool(v)),
               coherence.t2star_circuits(i['array'], 2., i['qubits'], 2),
               hamiltonian.zz_circuits(i['nums'], 2., i['qubits'], i['spect'], 2),
               chargates.ampcal_1Q_circuits(3, i['qubits']),
               chargates.anglecal_1Q_circuits(3, i['qubits'], angleerr=.1 * v),
               chargates.ampcal_cx_circuits(3, i['qubits'], i['spect']),
               chargates.anglecal_cx_circuits(3, i['qubits'], i['spect'], angleerr=.1 * v)]
        return [[[c.name, c] for c in part[0]] + list(part[1:]) for part in out]
    return Use(inp, make)


def char_use(kind):
    """A characterisation fitter."""
    def func(v):
        num = 1 + v
        qubits = [[2], [3, 1]][v]
        xdata = np.arange(1.0, 22.0, 2.0) if kind in c28.TRUE else np.arange(0, 12)
        shift = 0.3 * v
        sers = c22.series_of(kind)
        if kind in c28.TRUE:
            lines = {s: [lambda x, k=k, s=s: c28.TRUE[kind](x, k + shift + 0.5 * int(s))
                         for k in range(num)] for s in sers}
        else:
            lines = {'0': [lambda x, k=k: 0.5 + 0.02 * (k + 1) * (x % 5) - 0.03 * k - 0.1 * v
                           for k in range(num)]}
        start = {'t1': [1, 10, 0], 't2': [0.5, 10, 0.5], 't2star': [0.4, 10, 0.1, 0, 0.5],
                 'zz': [0.4, 0.1, 0, 0.5]}.get(kind, [0.0, 0.5])
        _, exps = c22.fitted(kind, xdata, qubits, lines, start)
        inp = dict(result=listed(v, exps), x=xdata, qubits=qubits, p0=start)

        def grow(fit, i):
            more = qsim.make_result([(e[0], {k: 7 for k in e[1]}) + tuple(e[2:]) for e in exps])
            fit.add_data([more], recalc=True, refit=False)
        return Use(inp, lambda i: c22.maker(kind, i['x'], i['qubits'], i['result'], i['p0']),
                   lambda fit, i: [fit.ydata, fit.params, fit.params_err,
                                   fit.description, fit.measured_qubits, list(fit.xdata)],
                   grow, 1e-4)
    return func


for _kind in ('t1', 't2', 't2star', 'zz', 'amp', 'angcx'):
    USES['fitter_' + _kind] = ('char', char_use(_kind))


@use('calib')
def u_schedules(v):
    back = c23.backend(2 + v)
    config = back.configuration()
    inp = dict(amps=[0.1, 0.2 + 0.1 * v], qubits=[[1, 0], [2]][v],
               drives=[config.drive(i) for i in range(2 + v)], map=config.meas_map)

    def make(i):
        kw = dict(pulse_sigma=6, pulse_width=24, drives=i['drives'], meas_map=i['map'],
                  inst_map=back.defaults().instruction_schedule_map)
        rabi = rabi_schedules(i['amps'], i['qubits'], **kw)
        drag = drag_schedules(i['amps'], i['qubits'], [0.1 + 0.1 * k for k in range(2 + v)], **kw)
        return [list(rabi[0]), rabi[1], list(drag[0]), drag[1]]
    return Use(inp, make)


@use('calib')
def u_iq_fitter(v):
    kind = ['rabi', 'drag'][v]
    qubits = [[1], [2, 0]][v]
    xdata = np.linspace(-1, 1, 21)
    exps = []
    for j, x in enumerate(xdata):
        mem = np.array([5 - 3j + (2 + 0.5 * k) * (
            np.cos(2 * np.pi * (0.8 + 0.1 * k) * x) if kind == 'rabi'
            else (x - 0.1 - 0.2 * k) ** 2) for k in range(len(qubits))])
        exps.append((c23.NAMES[kind] % j, np.array([mem + 0.3, mem - 0.3]), 2))
    inp = dict(x=xdata, qubits=qubits, result=qsim.make_iq_result(exps),
               p0=[2, 0.85, 0, 0] if kind == 'rabi' else [2, 0, 0.1])

    def make(i):
        fit = c23.maker(kind, i['x'], i['qubits'], None, i['p0'])
        fit.add_data(i['result'])
        return fit
    return Use(inp, make, lambda fit, i: [fit.ydata, fit.params], tol=1e-4)


@use('calib')
def u_update_gates(v):
    num = 2
    inp = dict(qubits=[[0], [1, 0]][v])
    inp['params'], inp['scheds'] = c27.pi2(['drag', 'double'][v], num)

    def make(i):
        imap = c27.device(num, c27.layouts(num, ['one', 'two'][v]))
        kw = dict(pi2_pulse_schedules=i['scheds']) if v else {}
        update_u_gates(i['params'], qubits=i['qubits'], inst_map=imap,
                       drives=[pulse.DriveChannel(q) for q in range(num)], **kw)
        return imap
    return Use(inp, make, lambda imap, i: [
        [imap.get('u2', q, P0=.3, P1=.7), imap.get('u3', q, P0=.3, P1=.7, P2=1.1),
         imap.get('u1', q, P0=.2)] for q in range(num)])


@use('disc')
def u_discriminator(v):
    states = ['00', '11', '01', '10'][:2 + v]
    slots = 2 + v
    mems = c28.clusters(slots, states)
    cal = qsim.make_iq_result([('cal_' + s, mems[s] * (1 + 0.1 * v), 4) for s in states])
    more = qsim.make_iq_result([('cal_' + s, mems[s][::-1] + 0.4, 4) for s in states])
    data = qsim.make_iq_result([('x%d' % k, mems[s], 4) for k, s in enumerate(states)])
    inp = dict(cal=cal, more=more, data=data, mask=[[0, 1], [2]][v],
               names=['cal_' + s for s in states], states=list(states))

    def make(i):
        cls = QuadraticIQDiscriminator if v else LinearIQDiscriminator
        return cls(i['cal'], i['mask'])

    def ask(fit, i):
        flt = DiscriminationFilter(fit, 2)
        return [flt.apply(i['data']), fit.get_xdata(i['data'], 1), fit.get_ydata(i['cal'], 0),
                fit.discriminate(fit.get_xdata(i['data'], 1)), fit.schedules
                if hasattr(fit, 'schedules') else None]
    return Use(inp, make, ask, lambda fit, i: fit.add_data(i['more'], i['states'], True, i['names']))


@use('accred')
def u_accred_circuits(v):
    circ = c17.build(2, ['h0', 'cx01'], [(0, 0), (1, 1)], 2) if v else \
        c17.build(1, ['u0'], [(0, 0)], 1)

    def make(i):
        acc = AccreditationCircuits(i['circ'], two_qubit_gate=['cx', 'cz'][v], seed=3 + v)
        out = acc.generate_circuits(3)
        return [list(out[0]), [list(map(int, p)) for p in out[1]], int(out[2])]
    return Use(dict(circ=circ), make)


@use('accred')
def u_accred_fitter(v):
    runs = [c18.symbol(s) for s in (['a0', 'r0', 'a2'] if not v else ['r3', 'a0'])]
    inp = dict(results=[r[0] for r in runs], pads=[r[1] for r in runs], zeros=[r[2] for r in runs])

    def make(i):
        fit = AccreditationFitter()
        for res, pads, zero in zip(i['results'], i['pads'], i['zeros']):
            fit.single_protocol_run(res, pads, zero)
        return fit
    return Use(inp, make, lambda fit, i: [
        fit.bound_variation_distance(0.05 + 0.2 * v), fit.bound, fit.confidence, fit.N_acc,
        fit.num_runs, fit.num_traps, fit.flag, list(fit.outputs)],
               lambda fit, i: fit.single_protocol_run(i['results'][0], i['pads'][0], i['zeros'][0]))


@use('accred')
def u_qotp(v):
    circ = c17.build(2, ['h0', 'cx01', 'u1'], [(0, 0), (1, 1)], 2) if v else \
        c17.build(1, ['u0'], [(0, 0)], 1)
    inp = dict(circ=circ, counts={'01': 5, '11': 3}, pad=[1, v])
    return Use(inp, lambda i: [QOTP(i['circ'], 2, two_qubit_gate=['cx', 'cz'][v], seed=4 + v),
                               QOTPCorrectCounts(i['counts'], i['pad'])])


@use('topo')
def u_code(v):
    inp = dict(raw={'0': {'00 0': 4, '10 1': 2}} if not v else {'1': {'111 00 00': 3, '101 11 10': 2}})

    def make(_):
        code = c20.make(2 + v, 1 + v, ['auto', 'hand'][v])
        return code

    def ask(code, i):
        return [code.circuit, code.get_circuit_list(), code.process_results(i['raw'])]
    return Use(inp, make, ask)


@use('topo')
def u_decoder(v):
    d, rounds = [(2, 1), (3, 1)][v]
    code = c20.make(d, rounds, 'auto')
    zero = '0 0  ' + ' '.join(['0' * (d - 1)] * (rounds + 1))
    lit = '0 0  ' + ' '.join(['1' + '0' * (d - 2)] * 2 + ['0' * (d - 1)] * (rounds - 1))
    tab = {'0': {zero: 20, lit: 4}, '1': {'1 1' + zero[3:]: 11, lit: 2}}
    inp = dict(table=tab, code=code.circuit)
    return Use(inp, lambda i: topo.GraphDecoder(c20.make(d, rounds, 'auto')),
               lambda dec, i: [dec.get_logical_prob(i['table']),
                               sorted(str(x) for x in dec.S.nodes()),
                               sorted([sorted([str(a), str(b)]), data['distance']]
                                      for a, b, data in dec.S.edges(data=True)),
                               sorted(str(x) for x in dec.make_error_graph(lit)['0'].nodes()),
                               topo.postselection_decoding(i['table']),
                               topo.lookuptable_decoding(i['table'], i['table'])],
               lambda dec, i: dec.weight_syndrome_graph(i['table']))


@use('ent')
def u_entanglement(v):
    device, _ = c26.backend(4, [[0, 1], [1, 2], [1, 3]] if v else [[0, 1], [1, 2], [2, 3]], 'up')
    inp = dict(counts={'000': 40, '111': 30, '010': 5}, other={'000': 10, '011': 7})

    def make(i):
        return ent.BConfig(device)

    def ask(conf, i):
        circ = conf.get_ghz_simple(3 + v)[0]
        return [circ.num_qubits, sorted(c26.qsim.dist(circ).items()) if circ else None,
                ent.get_ghz_simple(3, True), ent.get_ghz_mqc(2 + v, .3), ent.get_ghz_po(2 + v, .4),
                ent.composite_pauli_z_expvalue(i['counts'], 3),
                conf.get_tier_dict() if hasattr(conf, 'get_tier_dict') else None]
    return Use(inp, make, ask)


NAMES = sorted(USES)
for _num in (2, 3):
    c23.backend(_num)      # qiskit-terra's mock devices, built once


# ------------------------------------------------------------------ processes

def in_child(func):
    """Value of func() in a forked process."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            try:
                out = (True, func())
            except BaseException:  # pylint: disable=broad-except
                out = (False, traceback.format_exc())
            blob = pickle.dumps(out)
            blob = struct.pack('>Q', len(blob)) + blob
            while blob:
                blob = blob[os.write(wfd, blob):]
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    data = b''
    try:
        while len(data) < 8 or len(data) < 8 + struct.unpack('>Q', data[:8])[0]:
            part = os.read(rfd, 1 << 20)
            if not part:
                raise RuntimeError('a process ended without an answer')
            data += part
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    okay, val = pickle.loads(data[8:])
    if not okay:
        raise RuntimeError(val)
    return val


def get(name, v):
    """A use with fresh inputs."""
    return USES[name][1](v)


def answer(the, obj=None):
    """Make and ask."""
    if obj is None:
        obj = the.make(the.inp)
    return obj, plain(the.ask(obj, the.inp))


_ALONE = {}


def alone(name, v):
    """Answers of a use alone in a process."""
    if (name, v) not in _ALONE:
        _ALONE[name, v] = in_child(lambda: answer(get(name, v))[1])
    return _ALONE[name, v]


def report(log, clause, got, want, what, tol):
    """Collect a difference."""
    diff = differ(got, want, tol)
    log.append((clause, diff and '%s: %s' % (what, diff)))


def single(name, v, want):
    """One use: twice, shared inputs, growth."""
    log = []
    the = get(name, v)
    before = plain(the.inp)
    obj, got = answer(the)
    report(log, 'inputs', plain(the.inp), before, 'inputs of %s afterwards' % name, 0)
    report(log, 'again', answer(the, obj)[1], want, 'asked again', the.tol)
    report(log, 'inputs', plain(the.inp), before, 'inputs of %s after asking' % name, 0)
    second, got2 = answer(the)
    report(log, 'same-inputs', got2, want, 'second object of the same inputs', the.tol)
    if the.grow:
        the.grow(obj, the.inp)
        grown = answer(the, obj)[1]
        report(log, 'shared-inputs', answer(the, second)[1], want,
               'object which shares the inputs with one that got more data', the.tol)
        report(log, 'inputs', plain(the.inp), before, 'inputs of %s after more data' % name, 0)
        the.grow(second, the.inp)
        report(log, 'same-growth', answer(the, second)[1], grown, 'same data, same answers', the.tol)
        fresh = get(name, v)
        report(log, 'fresh-after', answer(fresh)[1], want, 'new object after more data for another',
               fresh.tol)
    report(log, 'answer', got, want, 'answer', the.tol)
    return log


def after(first, second, wants):
    """Second use after the first; the first still answers the same."""
    log = []
    the, obj = first
    name, v = second
    other = get(name, v)
    before = plain(other.inp)
    obj2, got = answer(other)
    report(log, 'after', got, wants[1], '%s after another use' % name, other.tol)
    report(log, 'inputs', plain(other.inp), before, 'inputs of %s' % name, 0)
    report(log, 'kept', answer(the, obj)[1], wants[0], 'first object after %s was used' % name,
           the.tol)
    report(log, 'both', answer(other, obj2)[1], wants[1], '%s asked again' % name, other.tol)
    return log


def pairs(name, v, seconds, wants):
    """In a process: the first use, then every second one in a process of its own."""
    the = get(name, v)
    obj, _ = answer(the)
    if threading.active_count() > 1 and len(seconds) > 1:
        return None             # threads of qiskit-terra's simulators do not survive a fork
    if len(seconds) == 1:
        return [(seconds[0], after((the, obj), seconds[0], (wants[name, v], wants[seconds[0]])))]
    return [(s, in_child(lambda s=s: after((the, obj), s, (wants[name, v], wants[s]))))
            for s in seconds]


def cases(tier):
    """All cases, simplest first."""
    for name in NAMES:
        for v in (0, 1):
            yield ['single', name, v]
    for name in NAMES:
        for v in (0, 1):
            yield ['pairs', name, v, tier == 'thorough']
    if tier == 'thorough':
        for name in NAMES:
            for mid in NAMES:
                if USES[name][0] == USES[mid][0]:
                    yield ['triples', name, mid]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def fail_first(ctx, log, what):
    """Report."""
    for clause, msg in log:
        ctx.check(clause, not msg, '%s: %s' % (what, msg))


def run_single(case, ctx):
    """One use."""
    _, name, v = case
    want = alone(name, v)
    log = in_child(lambda: single(name, v, want))
    ctx.step(4)
    fail_first(ctx, log, name)
    ctx.outcome(repr(want)[:2000])


def run_pairs(case, ctx):
    """One use followed by every other."""
    _, name, v, both = case
    seconds = [(n, w) for n in NAMES for w in (0, 1)
               if both or w == 0 or n == name or USES[n][0] == USES[name][0]]
    wants = {key: alone(*key) for key in seconds + [(name, v)]}
    done = in_child(lambda: pairs(name, v, seconds, wants))
    if done is None:
        done = [in_child(lambda s=s: pairs(name, v, [s], wants))[0] for s in seconds]
    for second, log in done:
        ctx.step()
        ctx.state([name, v, second])
        fail_first(ctx, log, '%s/%d then %s/%d' % ((name, v) + tuple(second)))
        ctx.outcome(name, second)


def triple(name, mid, third, wants):
    """Three uses; all answer as alone, in any order of asking."""
    kept = []
    for n, v in ((name, 0), (mid, 1)):
        the = get(n, v)
        obj, _ = answer(the)
        if the.grow:
            the.grow(obj, the.inp)
            the = get(n, v)
            obj, _ = answer(the)
        kept.append((n, v, the, obj))
    if len(third) == 1:
        return [(third[0], last(kept, third[0], wants))]
    if threading.active_count() > 1:
        return None
    return [(t, in_child(lambda t=t: last(kept, t, wants))) for t in third]


def last(kept, third, wants):
    """The third use, then all the others again."""
    log = []
    other = get(*third)
    report(log, 'after', answer(other)[1], wants[third], '%s after two others' % third[0], other.tol)
    for n, v, the, obj in kept:
        report(log, 'kept', answer(the, obj)[1], wants[n, v], '%s after two others' % n, the.tol)
    return log


def run_triples(case, ctx):
    """Three uses of one module, with data added to earlier objects."""
    _, name, mid = case
    third = [(n, v) for n in NAMES for v in (0, 1) if USES[n][0] == USES[name][0]]
    wants = {key: alone(*key) for key in third + [(name, 0), (mid, 1)]}
    done = in_child(lambda: triple(name, mid, third, wants))
    if done is None:
        done = [in_child(lambda t=t: triple(name, mid, [t], wants))[0] for t in third]
    for key, log in done:
        ctx.step()
        ctx.state([name, mid, key])
        fail_first(ctx, log, '%s, %s, then %s/%d' % ((name, mid) + tuple(key)))
