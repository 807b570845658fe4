"""C11: gate set tomography."""
import itertools
from ast import literal_eval

import numpy as np
from qiskit import QiskitError, QuantumCircuit
from qiskit.circuit.library import HGate, SGate, TGate, RXGate, RYGate, U2Gate, U3Gate
from qiskit.ignis.verification.tomography import (gateset_tomography_circuits,
                                                  GatesetTomographyFitter)
from qiskit.ignis.verification.tomography.basis import GateSetBasis, default_gateset_basis
from qiskit.ignis.verification.tomography.fitters.gateset_fitter import GaugeOptimize

from vlib import qsim

ID = 'C11'
BOUNDS = {
    'quick': '10 gate set bases (default, with added gates, with multi-gate non-commuting '
             'fiducials in every dictionary order tried, nearly dependent fiducials, callables and Gate objects) x qubit '
             '0..2: every circuit; 9 noisy true gate sets per basis with exact probabilities for '
             'linear inversion and gauge optimisation; full fit on noiseless, '
             'depolarising and damping devices (every circuit probability predicted); result splits',
    'thorough': 'as quick with 24 noisy gate sets per basis',
}
ASSUMPTIONS = ['exact probabilities are given as counts of 2^40 shots',
               'the final maximum-likelihood refinement is only required to stay at the exact '
               'solution (4e-2); its convergence from poor starting points is not claimed']
SHOTS = 2 ** 40
PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
CASE_TIMEOUT = 400


def ptm_of(u):
    return np.array([[np.trace(a @ u @ b @ u.conj().T).real / 2 for b in PAULI] for a in PAULI])


def rot(axis, ang):
    p = PAULI[axis]
    return np.cos(ang / 2) * np.eye(2) - 1j * np.sin(ang / 2) * p


GATES = {  # name -> (what the basis is given, reference unitary)
    'Id': (lambda circ, qubit: None, np.eye(2)),
    'A': (lambda circ, qubit: circ.rx(np.pi / 2, qubit), rot(1, np.pi / 2)),
    'B': (RYGate(np.pi / 2), rot(2, np.pi / 2)),
    'C': (lambda circ, qubit: (circ.rx(.9, qubit), circ.rz(.4, qubit)), rot(3, .4) @ rot(1, .9)),
    'D': (RXGate(1.2), rot(1, 1.2)),
    'sx': (RXGate(.25), rot(1, .25)),
    'sy': (RYGate(.2), rot(2, .2)),
    'h': (HGate(), (PAULI[1] + PAULI[3]) / np.sqrt(2)),
    's': (SGate(), np.diag([1, 1j])),
    't': (TGate(), np.diag([1, np.exp(.25j * np.pi)])),
    'u2': (U2Gate(.3, 1.1), rot(3, .3) @ rot(2, np.pi / 2) @ rot(3, 1.1)),
    'u3': (U3Gate(1.3, .2, -.9), rot(3, .2) @ rot(2, 1.3) @ rot(3, -.9)),
}
# the default gates are whatever unitaries the default basis puts in a circuit
for _g in ('X_Rot_90', 'Y_Rot_90'):
    _c = QuantumCircuit(1)
    default_gateset_basis().add_gate_to_circuit(_c, _c.qubits[0], _g)
    GATES[_g] = (None, qsim.unitary(_c))
DEF_SPAM = {'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',),
            'F3': ('X_Rot_90', 'X_Rot_90')}
BASES = {  # name -> (gates in order, spam, added gates)
    'default': (None, DEF_SPAM, []),
    'def_h': (None, DEF_SPAM, ['h']),
    'def_s': (None, DEF_SPAM, ['s']),
    'def_th': (None, DEF_SPAM, ['t', 'h']),
    'order': (['Id', 'A', 'B'], {'F0': ('Id',), 'F1': ('A',), 'F2': ('B',), 'F3': ('A', 'A')},
              []),
    'noncomm': (['Id', 'A', 'B'], {'F0': ('Id',), 'F1': ('A', 'B'), 'F2': ('B', 'A'),
                                   'F3': ('B', 'B')}, []),
    'three': (['B', 'Id', 'C'], {'F3': ('C', 'B', 'B'), 'F1': ('B',), 'F0': ('Id',),
                                 'F2': ('B', 'B', 'C')}, []),
    'gates': (['D', 'B', 'Id'], {'F2': ('D', 'B', 'B'), 'F1': ('B', 'B', 'D'), 'F0': ('Id',),
                                 'F3': ('B', 'B', 'B')}, ['t']),
    'params': (['Id', 'u3', 'A', 'B'], {'F0': ('Id',), 'F1': ('u3',), 'F2': ('B',),
                                        'F3': ('A', 'A')}, ['u2']),
    # nearly dependent fiducials
    'small': (['Id', 'sx', 'sy', 'B'], {'F0': ('Id',), 'F1': ('sx',), 'F2': ('sy',),
                                        'F3': ('sx', 'sx', 'sy')}, []),
}


def make_basis(name):
    gates, spam, added = BASES[name]
    if gates is None:
        basis = default_gateset_basis()
    else:
        basis = GateSetBasis(name, {g: GATES[g][0] for g in gates}, dict(spam))
    for g in added:
        arg = GATES[g][0]
        basis.add_gate(arg) if name != 'gates' else basis.add_gate(arg, g)
    return basis, (gates or ['Id', 'X_Rot_90', 'Y_Rot_90']) + added, spam


def noise_of(i, g):
    """Noise PTM of gate number g in device i (0 = noiseless)."""
    if i == 0:
        return np.eye(4)
    kind = (i - 1) % 3
    amt = .02 + .013 * ((i - 1) // 3 % 3) + .007 * g
    if i >= 10:
        kind, amt = (i + g) % 3, .01 + .002 * (i % 7) + .004 * g
    if kind == 0:
        return np.diag([1, 1 - amt, 1 - amt, 1 - amt])
    if kind == 1:
        s = np.sqrt(1 - amt)
        m = np.diag([1, s, s, 1 - amt])
        m[3, 0] = amt
        return m
    return ptm_of(rot(3, amt * 2) @ rot(2, amt))


def device(name, i):
    """True transfer matrices, state and effect of device i for a basis."""
    gates, spam = make_basis(name)[1:]
    true = {g: noise_of(i, k) @ ptm_of(GATES[g][1]) for k, g in enumerate(gates)}
    eps = 0 if i == 0 else .01 + .004 * (i % 5)
    rho = np.array([1, 0, 0, 1 - 2 * eps]) / np.sqrt(2)
    eff = np.array([1, 0, 0, 1 - 3 * eps]) / np.sqrt(2)
    if i > 4:
        rho = ptm_of(rot(1, eps)) @ rho
    fid = {}
    for f, seq in spam.items():
        m = np.eye(4)
        for g in seq:
            m = true[g] @ m
        fid[f] = m
    return true, rho, eff, fid


def probs_of(name, i):
    true, rho, eff, fid = device(name, i)
    out = {}
    for a in fid:
        out[(a,)] = eff @ fid[a] @ rho
        for b in fid:
            out[(a, b)] = eff @ fid[b] @ fid[a] @ rho
            for g in true:
                out[(a, g, b)] = eff @ fid[b] @ true[g] @ fid[a] @ rho
    return out


def cases(tier):
    big = tier == 'thorough'
    for name in BASES:
        for q in ([0], None, [1], [2]):
            yield ['circuits', name, q]
        yield ['matrices', name]
    yield ['isolated']
    for name in BASES:
        for i in range(25 if big else 10):
            yield ['linear', name, i]
        if name != 'small':
            yield ['gauge', name]
    for name in BASES:
        for i in range(3) if name != 'small' else ():
            yield ['fit', name, i]
    for perm in itertools.permutations(range(3)):
        yield ['split', list(perm)]
    yield ['reject']


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def run_circuits(case, ctx):
    _, name, q = case
    basis, gates, spam = make_basis(name)
    kw = {} if name == 'default' and q != [1] else dict(gateset_basis=basis)
    circs = gateset_tomography_circuits(*([] if q is None else [list(q)]), **kw)
    ctx.step()
    idx = 0 if q is None else q[0]
    names = [literal_eval(c.name) for c in circs]
    want = [(f,) for f in spam] + list(itertools.product(spam, repeat=2)) + \
        [(a, g, b) for a in spam for g in gates for b in spam]
    ctx.equal('names', sorted(names), sorted(want))
    for c, nm in zip(circs, names):
        body, meas = qsim.strip_measure(c)
        ctx.equal('measured', meas, {0: idx})
        seq = []
        for k, part in enumerate(nm):
            if len(nm) == 3 and k == 1:
                seq.append(part)
            else:
                seq += spam[part]
        u = np.eye(2)
        for g in seq:
            u = GATES[g][1] @ u
        full = np.kron(u, np.eye(2 ** idx))
        ctx.check('unitary', qsim.same_unitary(qsim.unitary(body), full, 1e-7), (nm, seq))
    ctx.outcome(case, len(circs))


def run_matrices(case, ctx):
    basis, gates, spam = make_basis(case[1])
    ctx.equal('gate_labels', list(basis.gate_labels), gates)
    ctx.equal('spam_labels', list(basis.spam_labels), sorted(spam))
    for g in gates:
        ctx.close('gate_matrix', basis.gate_matrices[g], ptm_of(GATES[g][1]), 1e-8, g)
    for f, seq in spam.items():
        m = np.eye(4)
        for g in seq:
            m = ptm_of(GATES[g][1]) @ m
        ctx.close('spam_matrix', basis.spam_matrix(f), m, 1e-8, (f, seq))
    ctx.step(len(gates) + len(spam))


def run_isolated(case, ctx):
    """Bases do not share state."""
    a = default_gateset_basis()
    b = default_gateset_basis()
    a.add_gate(HGate())
    ctx.equal('default_unchanged', list(b.gate_labels), ['Id', 'X_Rot_90', 'Y_Rot_90'])
    ctx.raises('unnamed', RuntimeError, lambda: a.add_gate(lambda c, q: None))
    a.add_gate(lambda c, q: c.z(q), 'zz')
    ctx.close('callable', a.gate_matrices['zz'], np.diag([1, -1, -1, 1]), 1e-9)
    ctx.step(3)


def fitter_of(name, i, parts=None):
    probs = probs_of(name, i)
    basis = make_basis(name)[0]
    exps = []
    for k, p in probs.items():
        # the number of shots may differ from circuit to circuit
        shots = SHOTS >> (len(exps) * (i % 4) % 5)
        c0 = int(round(p * shots))
        exps.append((str(k), {b: v for b, v in (('0', c0), ('1', shots - c0)) if v},
                     dict(width=1)))
    if parts:
        groups = [exps[j::3] for j in parts]
        return GatesetTomographyFitter([qsim.make_result(g) for g in groups],
                                       [str(k) for k in probs], basis)
    return GatesetTomographyFitter(qsim.make_result(exps), [str(k) for k in probs], basis)


def check_linear(ctx, name, i, lin):
    true, rho, eff, fid = device(name, i)
    gauge = np.array([fid[f] @ rho for f in sorted(fid)]).T
    inv = np.linalg.inv(gauge)
    for g in true:
        ctx.close('linear_gate', np.asarray(lin[g].data), inv @ true[g] @ gauge, 1e-6, g)
    ctx.close('linear_E', np.ravel(lin['E']), eff @ gauge, 1e-8)
    ctx.close('linear_rho', np.ravel(lin['rho']), inv @ rho, 1e-6)
    predict(ctx, name, i, {g: np.asarray(lin[g].data) for g in true}, np.ravel(lin['rho']),
            np.ravel(lin['E']), 1e-6)


def predict(ctx, name, i, gates, rho, eff, tol):
    """Every circuit probability predicted by a gate set is the measured one."""
    spam = BASES[name][1]
    fid = {}
    for f, seq in spam.items():
        m = np.eye(4)
        for g in seq:
            m = gates[g] @ m
        fid[f] = m
    for key, p in probs_of(name, i).items():
        v = rho
        for k, part in enumerate(key):
            v = (gates[part] if len(key) == 3 and k == 1 else fid[part]) @ v
        ctx.close('prediction', eff @ v, p, tol, key)


def run_linear(case, ctx):
    _, name, i = case
    fitter = fitter_of(name, i)
    lin = fitter.linear_inversion()
    ctx.step(2)
    check_linear(ctx, name, i, lin)
    again = fitter.linear_inversion()
    for g in lin:
        ctx.close('repeatable', np.asarray(getattr(again[g], 'data', again[g])),
                  np.asarray(getattr(lin[g], 'data', lin[g])), 1e-12)
    ctx.outcome(name, i)


def run_split(case, ctx):
    fitter = fitter_of('noncomm', 5, case[1])
    ctx.step(2)
    check_linear(ctx, 'noncomm', 5, fitter.linear_inversion())


def ideal_of(name):
    gates = make_basis(name)[1]
    return {g: ptm_of(GATES[g][1]) for g in gates}, np.array([1, 0, 0, 1]) / np.sqrt(2)


def run_gauge(case, ctx):
    """Noiseless device: gauge optimisation returns the ideal gate set."""
    from qiskit.quantum_info import PTM
    name = case[1]
    basis = make_basis(name)[0]
    ideal, vec = ideal_of(name)
    arg = {g: PTM(m) for g, m in ideal.items()}
    arg['rho'] = vec.reshape(4, 1)
    arg['E'] = vec.reshape(1, 4)
    lin = fitter_of(name, 0).linear_inversion()
    out = GaugeOptimize(arg, lin, basis).optimize()
    ctx.step(2)
    for g, m in ideal.items():
        ctx.close('gauge_gate', np.asarray(out[g].data), m, 1e-2, g)
    ctx.close('gauge_rho', np.ravel(out['rho']), vec, 1e-2)
    ctx.close('gauge_E', np.ravel(out['E']), vec, 1e-2)


def run_fit(case, ctx):
    _, name, i = case
    out = fitter_of(name, i).fit()
    ctx.step(2)
    true = device(name, i)[0]
    gates = {g: np.real(np.asarray(out[g].data)) for g in true}
    rho = np.array([np.trace(p @ out['rho'].data).real for p in PAULI]) / np.sqrt(2)
    eff = np.array([np.trace(p @ out['E'].data).real for p in PAULI]) / np.sqrt(2)
    predict(ctx, name, i, gates, rho, eff, 4e-2)
    if i == 0:
        ideal, vec = ideal_of(name)
        for g in ideal:
            ctx.close('fit_gate', gates[g], ideal[g], 2e-2, g)
        ctx.close('fit_rho', rho, vec, 2e-2)
        ctx.close('fit_E', eff, vec, 2e-2)


def run_reject(case, ctx):
    ctx.step()
    ctx.raises('two_qubits', QiskitError, lambda: gateset_tomography_circuits([0, 1]))
    probs = probs_of('default', 0)
    res = qsim.make_result([(str(k), {'0': 1}, dict(width=1)) for k in list(probs)[1:]])
    ctx.raises('missing', QiskitError,
               lambda: GatesetTomographyFitter(res, [str(k) for k in probs]))
