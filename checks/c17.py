"""C17: quantum one-time pad (random compilation)."""
import itertools

import numpy as np
from qiskit import QiskitError, QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.ignis.verification.accreditation import QOTP, QOTPCorrectCounts
from qiskit.ignis.verification.accreditation.qotp import layer_parser, QOTP_fromlayers

from vlib import qsim

ID = 'C17'
BOUNDS = {
    'quick': 'every circuit of <= 2 gates over an alphabet of 11 on 2 qubits and of <= 2 over 19 '
             'on 3 qubits (1- and 2-qubit gates, barriers), plus 14 longer ones up to 6 qubits (and 12 layers), x '
             'cx/cz x measurement maps (identity, permuted, partial, larger register) x coupling '
             'maps (none, line, ring, star, larger device), pads of two seeds each; for 8 '
             'circuits every pad (<= 2**10) or every pad of weight <= 2 and its complement; '
             'corrections: every pad and count dictionary support up to 3 bits, and of 12 bits',
    'thorough': 'circuits of <= 3 gates on 2 qubits and <= 2 on 3 with all maps, every pad of '
                'weight <= 3 for the longer circuits',
}
ASSUMPTIONS = ['circuits have one quantum and one classical register, measured at the end',
               'the transpiler of qiskit-terra is correct']
CASE_TIMEOUT = 300

ALPHA2 = ['h0', 'h1', 't0', 's1', 'u0', 'u1', 'cx01', 'cx10', 'cz01', 'b', 'x1']
ALPHA3 = ['h0', 'h1', 'h2', 't1', 'u0', 'u2', 'cx01', 'cx12', 'cx20', 'cx02', 'cz12', 'cx10', 'b',
          'cx21', 'x0', 's2', 'y1', 'cz02', 'b12']
LONG = [
    (2, ['h0', 'cx01', 'u1', 'cx10', 't0', 'h0', 'cx01', 'h1']),
    (2, ['u0', 'cx01', 'b', 'u1', 'cx01', 'u0']),
    (3, ['h0', 'cx01', 'cx12', 'u1', 'cx20', 'h2']),
    (3, ['u0', 'u1', 'u2', 'cx01', 'u2', 'cx12', 'h1', 'cx10', 'u0', 'cx21']),
    (3, ['h0', 'h1', 'h2', 'cz01', 'cz12', 'b', 'cz02', 'h0', 'h1', 'h2']),
    (3, ['u0', 'b', 'cx01', 'b', 'cx12', 'b', 'u2']),
    (4, ['h0', 'h2', 'cx01', 'cx23', 'u1', 'u3', 'cx12', 'cx30', 'h0', 'h1']),
    (4, ['h0', 'cx01', 'u0', 'cx02', 'u0', 'cx03', 'u3', 't0']),
    (4, ['u0', 'u1', 'cx01', 'u2', 'cx23', 'b', 'cx12', 'u0', 'cx03', 'h3']),
    (6, ['h0', 'cx01', 'u1', 'cx12', 'u2', 'cx23', 'cx54', 'u4', 'cx43', 'u3', 'cx05', 'h5', 'cx14',
         'u1', 'cx32', 'u0']),
    (2, ['u0', 'cx01', 'u1', 'cx10', 'h0', 'cx01', 'u0', 'cx10', 'u1', 'cx01', 't0', 'cx10', 'u0',
         'cx01', 'h1', 'cx10', 'u1', 'cx01', 'u0', 'cx10', 's1', 'cx01', 'u1', 'cx01', 'u0']),
    (1, ['u0']), (1, []), (1, ['h0', 't0', 'h0'])]
COUPLINGS = {'none': None, 'line': lambda n: [[i, i + 1] for i in range(n - 1)]
             + [[i + 1, i] for i in range(n - 1)],
             'oneway': lambda n: [[i + 1, i] for i in range(n - 1)],
             'star': lambda n: [[0, i] for i in range(1, n)],
             'bigger': lambda n: [[i, i + 1] for i in range(n + 1)] + [[0, n + 1]]}


def build(n, word, meas, ncl=None):
    """Circuit from a word; meas = list of (qubit, clbit)."""
    qreg = QuantumRegister(n, 'q')
    creg = ClassicalRegister(ncl or n, 's')
    circ = QuantumCircuit(qreg, creg)
    for g in word:
        if g[0] == 'b':
            circ.barrier(*([int(c) for c in g[1:]] or []))
        elif g.startswith('cx'):
            circ.cx(int(g[2]), int(g[3]))
        elif g.startswith('cz'):
            circ.cz(int(g[2]), int(g[3]))
        elif g[0] == 'u':
            q = int(g[1])
            circ.u3(0.7 + 0.4 * q, 0.3, 1.1 - 0.2 * q, q)
        else:
            getattr(circ, g[0])(int(g[1]))
    for q, c in meas:
        circ.measure(q, c)
    return circ


def meas_maps(n):
    """name -> (list of (qubit, clbit), classical bits)."""
    maps = {'id': ([(i, i) for i in range(n)], n)}
    if n > 1:
        maps['rev'] = ([(i, n - 1 - i) for i in range(n)], n)
        maps['rot'] = ([(i, (i + 1) % n) for i in range(n)], n)
        maps['part'] = ([(n - 1, 0)], 1)
        maps['gap'] = ([(0, n), (n - 1, 1)], n + 1)
    else:
        maps['gap'] = ([(0, 1)], 2)
    return maps


def corrected(dist, postp):
    """Apply the correction to a distribution through the public function."""
    return QOTPCorrectCounts(dist, postp)


def check_layers(ctx, layers, want, gate, ncl):
    """Layers have the right form and recombine to the circuit."""
    single, two = layers['singlequbitlayers'], layers['twoqubitlayers']
    ctx.check('layers', len(single) == len(two) + 1, '%d, %d' % (len(single), len(two)))
    circ = QuantumCircuit(layers['qregs'], layers['cregs'])
    for i, part in enumerate(single):
        for inst, qargs, _ in part.data:
            ctx.check('single-layer', inst.name == 'barrier' or len(qargs) == 1, inst.name)
        circ = circ + part
        if i < len(two):
            used = []
            for inst, qargs, _ in two[i].data:
                ctx.check('two-layer', inst.name == gate and len(qargs) == 2, inst.name)
                used.extend(qargs)
            ctx.check('disjoint', len(set(used)) == len(used), 'overlapping two-qubit gates')
            ctx.check('nonempty', len(used) > 0, 'empty two-qubit layer')
            circ = circ + two[i]
    circ = circ + layers['measlayer']
    ctx.check('recombine', qsim.same_dist(qsim.dist(circ), want, 1e-7), 'layers do not recombine')


def run_word(case, ctx):
    """One circuit, measurement map, coupling map and two-qubit gate."""
    _, n, word, mname, coupling, gate, seeds = case
    meas, ncl = meas_maps(n)[mname]
    circ = build(n, word, meas, ncl)
    want = qsim.dist(circ)
    cmap = COUPLINGS[coupling](n) if COUPLINGS[coupling] else None
    before = [(i.name, [q.index for q in qa], [c.index for c in ca]) for i, qa, ca in circ.data]
    layers = layer_parser(circ, two_qubit_gate=gate, coupling_map=cmap)
    check_layers(ctx, layers, want, gate, ncl)
    for seed in range(seeds):
        circs, posts = QOTP(circ, 2, two_qubit_gate=gate, coupling_map=cmap, seed=seed)
        ctx.step(3)
        ctx.equal('number', [len(circs), len(posts)], [2, 2])
        for padded, postp in zip(circs, posts):
            check_padded(ctx, padded, postp, want, gate, ncl, cmap)
    ctx.equal('unmodified', [(i.name, [q.index for q in qa], [c.index for c in ca])
                             for i, qa, ca in circ.data], before)
    ctx.outcome(want)


def check_padded(ctx, padded, postp, want, gate, ncl, cmap):
    """The corrected distribution is the original one."""
    postp = [int(b) for b in postp]
    ctx.check('pad-length', len(postp) == ncl and set(postp) <= {0, 1}, postp)
    got = corrected(qsim.dist(padded), postp)
    ctx.check('padded', qsim.same_dist(got, want, 1e-7),
              'corrected %s, original %s, pad %s' % (
                  {k: round(v, 4) for k, v in got.items() if v > 1e-6},
                  {k: round(v, 4) for k, v in want.items() if v > 1e-6}, postp))
    index = {q: i for i, q in enumerate(padded.qubits)}
    for inst, qargs, _ in padded.data:
        if len(qargs) == 2 and inst.name != 'barrier':
            ctx.check('gate-name', inst.name == gate, inst.name)
            if cmap is not None:
                pair = [index[q] for q in qargs]
                ctx.check('coupled', pair in cmap or pair[::-1] in cmap, pair)


class ScriptRng(np.random.RandomState):
    """Random bits from a script; other draws come from a fixed seed."""

    def __init__(self, bits):
        super().__init__(7)
        self.bits = bits
        self.used = 0

    def randint(self, low, high=None, size=None, **kw):
        if high is None:
            low, high = 0, low
        if low != 0 or high != 2:
            return super().randint(low, high, size=size, **kw)
        num = 1 if size is None else int(np.prod(size))
        vals = [self.bits[(self.used + i) % len(self.bits)] if self.bits else 0
                for i in range(num)]
        self.used += num
        return vals[0] if size is None else np.array(vals).reshape(size)


def run_pads(case, ctx):
    """Every pad of a circuit in the bound."""
    _, n, word, mname, gate, maxweight, chunk, nchunks = case
    meas, ncl = meas_maps(n)[mname]
    circ = build(n, word, meas, ncl)
    want = qsim.dist(circ)
    layers = layer_parser(circ, two_qubit_gate=gate)
    probe = ScriptRng([0])
    QOTP_fromlayers(layers, probe)
    nbits = max(1, probe.used)
    if maxweight is None:
        pads = list(itertools.product((0, 1), repeat=nbits))
    else:
        pads = []
        for w in range(maxweight + 1):
            for pos in itertools.combinations(range(nbits), w):
                pad = [int(i in pos) for i in range(nbits)]
                pads.append(pad)
                pads.append([1 - b for b in pad])
    seen = set()
    for pad in pads[chunk::nchunks]:
        padded, postp = QOTP_fromlayers(layers, ScriptRng(list(pad)))
        ctx.step()
        ctx.state(n, word, mname, gate, pad)
        check_padded(ctx, padded, postp, want, gate, ncl, None)
        seen.add(tuple(int(b) for b in postp))
    ctx.outcome(sorted(seen))


def run_variety(case, ctx):
    """Pads differ between draws and reach every correction; equal seeds repeat."""
    _, n, gate = case
    meas, ncl = meas_maps(n)['id']
    circ = build(n, ['h0'] + (['cx01'] if n > 1 else []), meas, ncl)
    circs, posts = QOTP(circ, 64 * n, two_qubit_gate=gate, seed=11)
    again, posts2 = QOTP(circ, 64 * n, two_qubit_gate=gate, seed=11)
    ctx.step(2)
    ctx.equal('seeded', [[int(b) for b in p] for p in posts], [[int(b) for b in p] for p in posts2])
    for a, b in list(zip(circs, again))[:8]:
        ctx.check('seeded-circuits', qsim.same_unitary(qsim.unitary(qsim.strip_measure(a)[0]),
                                                       qsim.unitary(qsim.strip_measure(b)[0])),
                  'equal seeds give different circuits')
    ctx.check('all-pads', len({tuple(map(int, p)) for p in posts}) == 2 ** n,
              'not every correction occurs')


def run_correct(case, ctx):
    """The correction is XOR with the pad, on any counts."""
    _, n, pad = case
    for values in itertools.product((0, 1, 3), repeat=2 ** n):
        counts = {s: v for s, v in zip(qsim.bitstrings(n), values) if v}
        copy = dict(counts)
        got = QOTPCorrectCounts(counts, pad)
        ctx.step()
        want = {''.join(str(int(c) ^ p) for c, p in zip(s, pad)): v for s, v in counts.items()}
        ctx.equal('xor', got, want)
        ctx.equal('input', counts, copy)
        ctx.equal('involution', QOTPCorrectCounts(got, pad), counts)
        arr = QOTPCorrectCounts(counts, np.array(pad))
        ctx.equal('array-pad', arr, want)
    ctx.outcome(n, pad)


def run_wide(case, ctx):
    """Corrections of twelve bits."""
    seed = case[1]
    pad = [int((i * (seed + 2) + seed) % 5 < 2) for i in range(12)]
    counts = {format((i * 677 + seed * 31) % 4096, '012b'): 1 + i % 4 for i in range(50)}
    want = {''.join(str(int(c) ^ p) for c, p in zip(s, pad)): v for s, v in counts.items()}
    ctx.step()
    ctx.equal('xor', QOTPCorrectCounts(counts, pad), want)
    ctx.outcome(pad)


def run_reject(case, ctx):
    """Circuits which cannot be padded are rejected."""
    which = case[1]
    circ = build(2, ['h0'], [])
    gate = 'cx'
    if which == 'reset':
        circ.h(0)
        circ.reset(0)
        circ.h(0)
        circ.measure([0, 1], [0, 1])
    elif which == 'midmeasure':
        circ.measure(0, 0)
        circ.h(0)
        circ.measure([0, 1], [0, 1])
    elif which == 'midmeasure2':
        circ.measure(0, 0)
        circ.cx(0, 1)
        circ.measure(1, 1)
    elif which == 'condition':
        circ.measure(0, 0)
        circ.x(1).c_if(circ.cregs[0], 1)
        circ.measure(1, 1)
    elif which == 'gate':
        circ.cx(0, 1)
        circ.measure([0, 1], [0, 1])
        gate = 'swap'
    ctx.step()
    ctx.raises('reject', QiskitError, lambda: QOTP(circ, 1, two_qubit_gate=gate, seed=0), which)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for which in ('reset', 'midmeasure', 'midmeasure2', 'condition', 'gate'):
        yield ['reject', which]
    for n in (1, 2, 3):
        for pad in itertools.product((0, 1), repeat=n):
            if n < 3 or full or sum(pad) in (0, 1, 3):
                yield ['correct', n, list(pad)]
        for gate in ('cx', 'cz'):
            yield ['variety', n, gate]
    for seed in range(12):
        yield ['wide', seed]
    for gate in ('cx', 'cz'):
        for k in range(4 if full else 3):
            for word in itertools.product(ALPHA2, repeat=k):
                for mname in (meas_maps(2) if k < 2 or full else ('rev', 'gap')):
                    yield ['word', 2, list(word), mname, 'none', gate, 1]
        for k in range(3 if full else 2):
            for word in itertools.product(ALPHA3, repeat=k):
                for mname in (meas_maps(3) if full and k < 2 else ('rot', 'part')):
                    yield ['word', 3, list(word), mname, 'none', gate, 1]
    if not full:
        for word in itertools.product(ALPHA3, repeat=2):
            yield ['word', 3, list(word), 'rot', 'none', 'cx', 1]
    for n, word in LONG:
        for mname in meas_maps(n):
            for coupling in COUPLINGS:
                if n == 1 and coupling not in ('none', 'bigger'):
                    continue
                if n == 6 and not full and (mname, coupling) not in (
                        ('rot', 'none'), ('gap', 'line'), ('rev', 'oneway')):
                    continue
                for gate in ('cx', 'cz'):
                    yield ['word', n, word, mname, coupling, gate, 2]
    for gate in ('cx', 'cz'):
        for n, word, mname in ((1, ['u0'], 'gap'), (2, ['u0', 'h1'], 'rev'),
                               (2, ['h0', 'u1', 'cx01', 'u0'], 'rev'),
                               (2, ['u0', 'cx10', 'h1'], 'part')):
            for c in range(8):
                yield ['pads', n, word, mname, gate, None, c, 8]
        for n, word in LONG[:4] + LONG[6:10]:
            for c in range(8):
                yield ['pads', n, word, 'rot', gate, 3 if full and n < 4 else (2 if n < 4 else 1),
                       c, 8]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
