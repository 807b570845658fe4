"""C18: accreditation circuits and the accounting of runs."""
import itertools
import math
from unittest import mock

import numpy as np
from qiskit import QiskitError
from qiskit.ignis.verification.accreditation import (AccreditationCircuits, AccreditationFitter,
                                                     QOTPCorrectCounts)

from vlib import qsim
from checks.c17 import build, meas_maps, COUPLINGS, LONG

ID = 'C18'
BOUNDS = {
    'quick': 'generator: 13 targets up to 4 qubits x cx/cz x measurement maps x coupling maps; '
             'every random choice (target position, basis, gate choices: the whole choice tree) '
             'for 9 target/trap-number pairs under 4 pad patterns, seeds 0..3 elsewhere; every '
             'Pauli after every two-qubit gate is caught by some choice, every Pauli of all qubits '
             'after a two-qubit gate by half of the choices, every pair of Paulis at two places by '
             'a quarter (3 targets x cx/cz); fitter: every history of '
             '<= 4 runs over 9 kinds of run (5 valid, 4 invalid), interleaved histories of two '
             'fitters of <= 4 runs over 4 kinds, 6 values of theta after each step, every '
             'outcome of 3 traps and target on 1 and 2 qubits for every target position; 11-12 '
             'traps, 11 bits, 13 runs',
    'thorough': 'histories of <= 5 runs, choice trees of larger targets, seeds 0..9',
}
ASSUMPTIONS = ['targets have one quantum and one classical register, measured at the end',
               'without an accepted run there is no bound (an error), and without enough accepted '
               'runs for theta the bound is the trivial one']
CASE_TIMEOUT = 400


class TreeRng(np.random.RandomState):
    """Scalar draws follow a script and record their arity; arrays are a pad pattern."""

    def __init__(self, script=(), pattern=(0,)):
        super().__init__(5)
        self.script = list(script)
        self.pattern = pattern
        self.arity = []
        self.bits = 0

    def randint(self, low, high=None, size=None, **kw):
        if high is None:
            low, high = 0, low
        if size is None:
            pos = len(self.arity)
            self.arity.append(int(high - low))
            if pos >= len(self.script):
                self.script.append(0)
            return low + self.script[pos] % int(high - low)
        if low != 0 or high != 2:
            return super().randint(low, high, size=size, **kw)
        num = int(np.prod(size))
        vals = [self.pattern[(self.bits + i) % len(self.pattern)] for i in range(num)]
        self.bits += num
        return np.array(vals).reshape(size)


def tree(make, limit):
    """All runs of make(rng) over every scripted choice (depth first)."""
    script = []
    count = 0
    while True:
        rng = make.fresh(script)
        yield rng, make.run(rng)
        count += 1
        assert count <= limit, 'choice tree larger than the bound'
        path = rng.script[:len(rng.arity)]
        while path and path[-1] + 1 >= rng.arity[len(path) - 1]:
            path.pop()
        if not path:
            return
        path[-1] += 1
        script = path


class Generate:
    """Generation of one accreditation run under a scripted generator."""

    def __init__(self, circ, gate, cmap, traps, pattern):
        self.circ, self.gate, self.cmap = circ, gate, cmap
        self.traps, self.pattern = traps, pattern

    def fresh(self, script):
        return TreeRng(script, self.pattern)

    def run(self, rng):
        with mock.patch.object(np.random, 'RandomState', lambda *a, **k: rng):
            acc = AccreditationCircuits(self.circ, two_qubit_gate=self.gate,
                                        coupling_map=self.cmap, seed=1)
            return acc.generate_circuits(self.traps)


def two_gates(circ):
    """The two-qubit gates of a circuit per pair of neighbours in time."""
    index = {q: i for i, q in enumerate(circ.qubits)}
    return [(inst.name, tuple(index[q] for q in qargs)) for inst, qargs, _ in circ.data
            if len(qargs) == 2 and inst.name != 'barrier']


def layered(gates):
    """As soon as possible layers, as sets, so that the order within layers is free."""
    level = {}
    out = {}
    for name, qubits in gates:
        lvl = max(level.get(q, 0) for q in qubits)
        for q in qubits:
            level[q] = lvl + 1
        out.setdefault(lvl, set()).add((name, qubits))
    return [sorted(out[k]) for k in sorted(out)]


def check_run(ctx, out, want, gate, cmap, traps, ncl, zero=None):
    """One generated run: position, zeros, distribution, layers."""
    circs, posts, v_zero = out
    ctx.equal('number', [len(circs), len(posts)], [traps + 1, traps + 1])
    ctx.check('position', 0 <= int(v_zero) <= traps, v_zero)
    if zero is not None:
        ctx.equal('chosen-position', int(v_zero), zero)
    target2 = two_gates(circs[v_zero])
    for k, (circ, postp) in enumerate(zip(circs, posts)):
        postp = [int(b) for b in postp]
        got = QOTPCorrectCounts(qsim.dist(circ), postp)
        got = {s: p for s, p in got.items() if p > 1e-9}
        if k == v_zero:
            ctx.check('target', qsim.same_dist(got, want, 1e-7), 'target reads %s, not %s' % (
                {s: round(p, 4) for s, p in got.items()}, want))
        else:
            ctx.check('trap-zero', set(got) == {'0' * ncl} and abs(sum(got.values()) - 1) < 1e-7,
                      'trap %d of %d reads %s' % (k, traps, got))
        gates = two_gates(circ)
        ctx.equal('layers', layered(gates), layered(target2))
        for name, pair in gates:
            ctx.check('gate-name', name == gate, name)
            if cmap is not None:
                ctx.check('coupled', list(pair) in cmap or list(pair)[::-1] in cmap, pair)


TARGETS = [(1, ['h0', 't0', 'h0']), (2, ['h0', 'cx01']), (2, ['u0', 'u1']),
           (2, ['h0', 'cx01', 'u1', 'cx10', 't0']),
           (3, ['h0', 'cx01', 'u1', 'cx12']), (3, ['u0', 'cx02', 'u1', 'cx12', 'cz01'])]


def setup(n, word, mname, coupling):
    """Circuit, its distribution, bits and map."""
    meas, ncl = meas_maps(n)[mname]
    circ = build(n, word, meas, ncl)
    want = {s: p for s, p in qsim.dist(circ).items() if p > 1e-9}
    cmap = COUPLINGS[coupling](n) if COUPLINGS[coupling] else None
    return circ, want, ncl, cmap


def run_seeds(case, ctx):
    """Generated runs of seeded objects, several runs of one object, reloading the target."""
    _, n, word, mname, coupling, gate, traps, seeds = case
    circ, want, ncl, cmap = setup(n, word, mname, coupling)
    for seed in range(seeds):
        acc = AccreditationCircuits(circ, two_qubit_gate=gate, coupling_map=cmap, seed=seed)
        again = AccreditationCircuits(circ, two_qubit_gate=gate, coupling_map=cmap, seed=seed)
        for num in (traps, 1 + traps % 3):
            out = acc.generate_circuits(num)
            ctx.step()
            check_run(ctx, out, want, gate, cmap, num, ncl)
            if cmap is None:
                out2 = again.generate_circuits(num)
                ctx.equal('seeded', [int(out[2]), [list(map(int, p)) for p in out[1]]],
                          [int(out2[2]), [list(map(int, p)) for p in out2[1]]])
        other = build(n, ['h0', 'x0'], [(0, 0)], 1)
        acc.target_circuit(other, two_qubit_gate=gate)
        ctx.step()
        check_run(ctx, acc.generate_circuits(traps), {'0': 0.5, '1': 0.5}, gate, None, traps, 1)
    ctx.outcome(want)


def run_tree(case, ctx):
    """The whole choice tree of one run."""
    _, n, word, mname, gate, traps, pattern = case
    circ, want, ncl, cmap = setup(n, word, mname, 'none')
    gen = Generate(circ, gate, cmap, traps, tuple(pattern))
    positions = set()
    total = 0
    for rng, out in tree(gen, 5000):
        ctx.step()
        ctx.state(case, rng.script)
        check_run(ctx, out, want, gate, cmap, traps, ncl)
        positions.add(int(out[2]))
        total += 1
    if positions != set(range(traps + 1)):
        # the position is not drawn with randint: enumerate seeds instead
        for seed in range(40):
            acc = AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed)
            positions.add(int(acc.generate_circuits(traps)[2]))
            ctx.step()
    if total > 1 or traps < 4:
        ctx.check('every-position', positions == set(range(traps + 1)), sorted(positions))
    ctx.outcome(n, word, total)


def run_detect(case, ctx):
    """Every Pauli after a two-qubit gate of a trap is caught by some choice."""
    _, n, word, gate = case
    circ, _, ncl, _ = setup(n, word, 'id', 'none')
    gen = Generate(circ, gate, None, 1, (0, 1, 1))
    caught, faults = set(), set()
    runs = [out for _, out in tree(gen, 5000)]
    if len(runs) == 1:
        runs = [AccreditationCircuits(circ, two_qubit_gate=gate, seed=s).generate_circuits(1)
                for s in range(60)]
    ctx.step(len(runs))
    for circs, posts, v_zero in runs:
        trap, postp = circs[1 - v_zero], [int(b) for b in posts[1 - v_zero]]
        places = [i for i, (inst, qargs, _) in enumerate(trap.data)
                  if len(qargs) == 2 and inst.name != 'barrier']
        for num, place in enumerate(places):
            for paulis in itertools.product('ixyz', repeat=2):
                if paulis == ('i', 'i'):
                    continue
                faults.add((num, paulis))
                if (num, paulis) in caught:
                    continue
                bad = trap.copy()
                bad.data = trap.data[:place + 1]
                for pauli, qubit in zip(paulis, trap.data[place][1]):
                    if pauli != 'i':
                        getattr(bad, pauli)(qubit)
                bad.data += trap.data[place + 1:]
                got = QOTPCorrectCounts(qsim.dist(bad), postp)
                ctx.state(num, paulis, postp)
                if got.get('0' * ncl, 0) < 0.75:
                    caught.add((num, paulis))
    ctx.check('detect', caught == faults, 'never caught: %s' % sorted(faults - caught)[:4])
    ctx.outcome(n, word, len(faults))


def flips(trap, postp, ncl):
    """Outcome bits flipped by X and Z on each qubit after the preparation, after each two-qubit
    gate, and before the measurement: [{(pauli, qubit): set of bits}] or None if not certain."""
    body = [i for i, (inst, _, _) in enumerate(trap.data) if inst.name not in ('measure', 'barrier')]
    gates = [i for i in body if len(trap.data[i][1]) == 2]
    places = [-1] + gates + [body[-1] if body else -1]
    out = []
    for place in places:
        row = {}
        for pauli in 'xz':
            for q in range(trap.num_qubits):
                bad = trap.copy()
                bad.data = trap.data[:place + 1]
                getattr(bad, pauli)(q)
                bad.data += trap.data[place + 1:]
                got = QOTPCorrectCounts(qsim.dist(bad), postp)
                best = max(got, key=got.get)
                if got[best] < 1 - 1e-6:
                    return None
                row[pauli, q] = frozenset(i for i in range(ncl) if best[i] == '1')
        out.append(row)
    return out


def effect(row, paulis):
    """Bits flipped by a product of Paulis."""
    bits = frozenset()
    for q, pauli in enumerate(paulis):
        if pauli in 'xy':
            bits ^= row['x', q]
        if pauli in 'zy':
            bits ^= row['z', q]
    return bits


def power(traps, n):
    """Probability of each error to be caught; traps = [(weight, flips)].

    Errors: a Pauli after one two-qubit gate; Paulis at two places, one of them after such a gate.
    """
    some = [p for p in itertools.product('ixyz', repeat=n) if set(p) != {'i'}]
    places = len(traps[0][1])
    table = [[{p: effect(row, p) for p in some} for row in rows] for _, rows in traps]
    weights = [w for w, _ in traps]
    out = {}
    for a in range(1, places - 1):
        for p in some:
            out[(a, p),] = sum(w for w, tab in zip(weights, table) if tab[a][p])
    for a, b in itertools.combinations(range(places), 2):
        if a == 0 and b == places - 1:
            continue
        for p in some:
            for r in some:
                out[(a, p), (b, r)] = sum(w for w, tab in zip(weights, table)
                                          if tab[a][p] != tab[b][r])
    return out


def run_power(case, ctx):
    """Over the random choices, an error at one place is caught with probability at least one
    half, one at two places with at least one quarter."""
    _, n, word, gate = case
    circ, _, ncl, _ = setup(n, word, 'id', 'none')
    gen = Generate(circ, gate, None, 1, (0, 1, 1))
    traps = []
    for rng, (circs, posts, v_zero) in tree(gen, 5000):
        ctx.step()
        ctx.state(case, rng.script)
        weight = 1.0
        for arity in rng.arity:
            weight /= arity
        row = flips(circs[1 - v_zero], [int(b) for b in posts[1 - v_zero]], ncl)
        if row is None:
            ctx.fail('power-certain', 'the outcome of a trap with a Pauli error is not certain')
        traps.append((weight, row))
    weak = {}
    for fault, prob in power(traps, n).items():
        need = 0.5 if len(fault) == 1 else 0.25
        ctx.outcome(case, fault, round(prob, 6))
        if prob < need - 1e-9:
            weak[fault] = (prob, need)
    if weak:
        # the choices may be drawn in another way than the tree follows: ask the real generator
        traps = []
        for seed in range(300):
            acc = AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed)
            circs, posts, v_zero = acc.generate_circuits(1)
            row = flips(circs[1 - v_zero], [int(b) for b in posts[1 - v_zero]], ncl)
            if row is not None:
                traps.append((1 / 300, row))
        real = power(traps, n)
        weak = {k: (real[k],) + v for k, v in weak.items() if real[k] < v[1] - 0.15}
    ctx.check('power', not weak, 'caught with too small a probability: %s' % sorted(
        weak.items(), key=repr)[:3])


# ---------------------------------------------------------------- fitter

PADS3 = [[0, 1], [1, 0], [1, 1], [0, 0]]


def protocol(values, pads, shots=1, extra=None):
    """A Result where corrected circuit k reads values[k]."""
    exps = []
    for k, (val, pad) in enumerate(zip(values, pads)):
        raw = ''.join(str(int(c) ^ p) for c, p in zip(val, pad))
        counts = {raw: shots}
        if extra is not None and k == extra:
            counts = {raw: 1, ''.join('1' if c == '0' else '0' for c in raw): 1}
        exps.append(('c%d' % k, counts, dict(width=len(val), creg_sizes=[['s', len(val)]],
                                             shots=sum(counts.values()))))
    return qsim.make_result(exps)


_RUNS = {}


def symbol(name):
    """(result, pads, v_zero, accepted output, 'reject' or None if invalid, traps)."""
    if name in _RUNS:
        return _RUNS[name]
    z = '00'
    spec = {
        'a0': ([z, z, z, z], PADS3, 0, z),
        'a2': ([z, z, '10', z], PADS3, 2, '10'),
        'r0': (['01', z, '11', z], PADS3, 2, 'reject'),
        'r3': ([z, '10', z, '01'], PADS3, 1, 'reject'),
        'rt': (['10', '10', z, z], PADS3, 1, 'reject'),
        'a5': ([z, z, z, z, '01'], PADS3 + [[1, 0]], 4, '01')}
    if name in spec:
        vals, pads, v0, want = spec[name]
        out = (protocol(vals, pads), pads, v0, want, len(pads) - 1)
    elif name == 'few':
        out = (protocol([z, z, z], PADS3[:3]), PADS3[:3], 1, None, 2)
    elif name == 'shots':
        out = (protocol([z] * 4, PADS3, shots=2), PADS3, 1, None, 3)
    elif name == 'mixed':
        out = (protocol([z] * 4, PADS3, extra=3), PADS3, 1, None, 3)
    elif name == 'target2':
        out = (protocol([z] * 4, PADS3, extra=1), PADS3, 1, None, 3)
    _RUNS[name] = out
    return out


SYMBOLS = ['a0', 'a2', 'r0', 'r3', 'a5', 'few', 'shots', 'mixed', 'target2']
THETAS = (0.0, 0.01, 0.05, 0.25, 0.5, 0.95)


class Model:
    """The documented accounting of one fitter."""

    def __init__(self):
        self.runs, self.outputs, self.traps = 0, [], None

    def valid(self, sym):
        _, _, _, want, traps = symbol(sym)
        return want is not None and traps >= 3 and self.traps in (None, traps)

    def add(self, sym):
        _, _, _, want, traps = symbol(sym)
        self.runs += 1
        self.traps = traps
        if want != 'reject':
            self.outputs.append(want)


def step(ctx, fitter, model, sym):
    """One run on the fitter and the model."""
    res, pads, v0, want, _ = symbol(sym)
    ctx.step()
    if not model.valid(sym):
        ctx.raises('invalid-run', QiskitError,
                   lambda: fitter.single_protocol_run(res, pads, v0), sym)
    else:
        fitter.single_protocol_run(res, pads, v0)
        model.add(sym)
        ctx.equal('flag', fitter.flag, 'rejected' if want == 'reject' else 'accepted')


def compare(ctx, fitter, model, thetas):
    """State and bounds of the fitter are those of its history."""
    ctx.equal('accounting', [fitter.num_runs, fitter.N_acc, list(fitter.outputs)],
              [model.runs, len(model.outputs), model.outputs])
    if model.runs:
        ctx.equal('traps', fitter.num_traps, model.traps)
    for theta in thetas:
        if not model.outputs:
            ctx.raises('no-accepted', QiskitError,
                       lambda t=theta: fitter.bound_variation_distance(t), 'no accepted run')
            continue
        fitter.bound_variation_distance(theta)
        frac = len(model.outputs) / model.runs
        bound, conf = 1, 1
        if frac > theta:
            bound = min(1, 1.7 / (model.traps + 1) / (frac - theta))
            conf = 1 - 2 * math.exp(-2 * theta ** 2 * model.runs)
        ctx.close('bound', fitter.bound, bound, 1e-9, 'bound')
        ctx.close('confidence', fitter.confidence, conf, 1e-9, 'confidence')


def run_history(case, ctx):
    """All histories with a given prefix, depth first."""
    _, prefix, depth = case
    for tail in itertools.product(SYMBOLS, repeat=depth):
        hist = list(prefix) + list(tail)
        fitter, model = AccreditationFitter(), Model()
        for i, sym in enumerate(hist):
            step(ctx, fitter, model, sym)
            compare(ctx, fitter, model, THETAS if i == len(hist) - 1 else (THETAS[i % 6],))
        compare(ctx, fitter, model, (0.5, 0.0))
        ctx.state(hist)
    ctx.outcome(model.runs, model.outputs)


def run_two(case, ctx):
    """Interleaved histories of two fitters."""
    _, prefix, depth = case
    alphabet = [(f, s) for f in (0, 1) for s in ('a2', 'r0', 'a5', 'shots')]
    for tail in itertools.product(alphabet, repeat=depth):
        hist = [tuple(p) for p in prefix] + list(tail)
        fitters = [AccreditationFitter(), AccreditationFitter()]
        models = [Model(), Model()]
        for which, sym in hist:
            step(ctx, fitters[which], models[which], sym)
        for fitter, model in zip(fitters, models):
            compare(ctx, fitter, model, (0.05,))
        ctx.state(hist)


def run_single(case, ctx):
    """Every outcome of traps and target, every target position."""
    _, n, traps, pads = case
    for v0 in range(traps + 1):
        values = qsim.bitstrings(n)
        for vals in itertools.product(values, repeat=traps + 1):
            fitter = AccreditationFitter()
            fitter.single_protocol_run(protocol(vals, pads), pads, v0)
            ctx.step()
            good = all(v == '0' * n for k, v in enumerate(vals) if k != v0)
            ctx.equal('accepted', [fitter.flag, fitter.N_acc, list(fitter.outputs)],
                      ['accepted', 1, [vals[v0]]] if good else ['rejected', 0, []])
            ctx.state(v0, vals)


def run_wide(case, ctx):
    """More than ten traps, bits and runs."""
    _, n, traps, v0, seed = case
    zero = '0' * n
    pads = [[(k * 3 + b + seed) % 2 for b in range(n)] for k in range(traps + 1)]
    target = ''.join('01'[(b * 2 + seed) % 3 == 0] for b in range(n))
    fitter, runs, outputs = AccreditationFitter(), 0, []
    for bad in [None] + list(range(traps + 1)):
        vals = [zero] * (traps + 1)
        vals[v0] = target
        if bad is not None:
            b = (bad * 5 + seed) % n
            vals[bad] = ''.join('1' if (i == b) != (vals[bad][i] == '1') else '0'
                                for i in range(n))
        fitter.single_protocol_run(protocol(vals, pads), pads, v0)
        ctx.step()
        runs += 1
        good = bad is None or bad == v0
        if good:
            outputs.append(vals[v0])
        ctx.equal('wide', [fitter.flag, fitter.num_runs, fitter.N_acc, list(fitter.outputs),
                           fitter.num_traps],
                  ['accepted' if good else 'rejected', runs, len(outputs), outputs, traps])
        for theta in (0.0, 0.01, 0.05):
            fitter.bound_variation_distance(theta)
            frac = len(outputs) / runs
            bound, conf = 1, 1
            if frac > theta:
                bound = min(1, 1.7 / (traps + 1) / (frac - theta))
                conf = 1 - 2 * math.exp(-2 * theta ** 2 * runs)
            ctx.close('bound', fitter.bound, bound, 1e-9, 'bound')
            ctx.close('confidence', fitter.confidence, conf, 1e-9, 'confidence')
        ctx.state(case, bad)
    ctx.outcome(outputs)


def run_end(case, ctx):
    """Generated circuits, deterministic outcomes, fitted: accepted; a flip is rejected."""
    _, n, word, gate, seed = case
    circ, want, ncl, _ = setup(n, word, 'id', 'none')
    acc = AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed)
    circs, posts, v0 = acc.generate_circuits(3)
    raws = [max(d, key=d.get) for d in map(qsim.dist, circs)]
    for flip in [None] + [(k, b) for k in range(4) for b in range(ncl)]:
        exps = []
        for k, raw in enumerate(raws):
            if flip and flip[0] == k:
                b = flip[1]
                raw = raw[:b] + ('1' if raw[b] == '0' else '0') + raw[b + 1:]
            exps.append(('c%d' % k, {raw: 1}, dict(width=ncl, creg_sizes=[['s', ncl]], shots=1)))
        fitter = AccreditationFitter()
        fitter.single_protocol_run(qsim.make_result(exps), posts, v0)
        ctx.step()
        good = flip is None or flip[0] == v0
        ctx.equal('protocol', [fitter.flag, fitter.N_acc],
                  ['accepted', 1] if good else ['rejected', 0])
        if flip is None:
            ctx.check('output', fitter.outputs[0] in want, fitter.outputs)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for pads in ([[0]] * 4, [[1], [0], [1], [1]]):
        yield ['single', 1, 3, pads]
    yield ['single', 1, 4, [[1], [0], [1], [1], [0]]]
    yield ['single', 2, 3, PADS3]
    for n in (1, 2, 11):
        for traps in (3, 11, 12):
            for v0 in (0, 1, traps - 1, traps):
                yield ['wide', n, traps, v0, n + traps]
    for gate in ('cx', 'cz'):
        yield ['seeds', 2, ['h0', 'cx01', 'u1', 'cx10', 't0'], 'rev', 'none', gate, 12, 1]
    for k in range(3):
        yield ['history', [], k]
    for pre in itertools.product(SYMBOLS, repeat=1 if not full else 2):
        yield ['history', list(pre), 2]
        yield ['history', list(pre), 3]
    for k in range(3):
        yield ['two', [], k]
    for pre in itertools.product([(f, s) for f in (0, 1) for s in ('a2', 'r0', 'a5', 'shots')],
                                 repeat=2):
        yield ['two', [list(p) for p in pre], 1]
        yield ['two', [list(p) for p in pre], 3 if full else 2]
    for gate in ('cx', 'cz'):
        for n, word in ((1, ['h0']), (2, ['h0', 'cx01']), (3, ['x0', 'cx01', 'h2', 'cx12'])):
            for seed in range(3):
                yield ['end', n, word, gate, seed]
        for n, word in TARGETS + LONG[:9:1 if full else 2]:
            for mname in meas_maps(n):
                for coupling in COUPLINGS:
                    if n == 1 and coupling not in ('none', 'bigger'):
                        continue
                    if not full and mname not in ('rev', 'gap') and coupling != 'none':
                        continue
                    yield ['seeds', n, word, mname, coupling, gate, 3, 4 if full else 1]
        for pattern in ([0], [1], [0, 1], [1, 1, 0]):
            for n, word, traps in ((1, ['h0'], 2), (2, ['u0', 'h1'], 3), (2, ['h0', 'cx01'], 2),
                                   (2, ['h0', 'cx01', 'u1', 'cx10'], 1),
                                   (3, ['h0', 'cx01', 'u2'], 1)):
                yield ['tree', n, word, 'id', gate, traps, pattern]
        yield ['tree', 2, ['h0', 'cx01', 'u1', 'cx10', 'h0', 'cx01'], 'rev', gate, 1, [0, 0, 1]]
        yield ['tree', 3, ['h0', 'cx01', 'u1', 'cx12'], 'rot', gate, 1, [0, 0, 1, 1]]
        if full:
            yield ['tree', 4, ['h0', 'cx01', 'cx23', 'u1', 'cx12'], 'id', gate, 1, [0, 1, 1]]
            yield ['tree', 2, ['h0', 'cx01'], 'rev', gate, 3, [0, 1, 1]]
        for n, word in ((2, ['h0', 'cx01']), (2, ['h0', 'cx01', 'u1', 'cx10']),
                        (3, ['h0', 'cx01', 'u1', 'cx12'])):
            yield ['detect', n, word, gate]
        for n, word in ((2, ['h0', 'cx01']), (2, ['h0', 'cx01', 'u1', 'cx10']),
                        (3, ['h0', 'cx01', 'u2']), (3, ['h0', 'cx01', 'u1', 'cx12']))[
                            :4 if full else 3]:
            yield ['power', n, word, gate]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
