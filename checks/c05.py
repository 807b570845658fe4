"""C05: CTMP mitigation."""
import itertools

import numpy as np
import scipy.linalg as la
from qiskit.ignis.mitigation.expval import CTMPExpvalMeasMitigator, expectation_value

from vlib import qsim

ID = 'C05'
BOUNDS = {
    'quick': 'generator sets on 1-3 qubits: every single generator, every pair of generators on 2 '
             'qubits (all one- and two-qubit bit-flip generators, both qubit orders), 4 dense sets '
             'on 3 qubits and all ascending qubit selections; all three-qubit generators on 3 qubit '
             'triples of 4; all orders of two qubit selections of 4; sampling: all Markov paths with <=3 '
             'steps (<=4 for 2-level branching) x all start states, for every such small set, '
             'several observables and qubit orders, and batches above the 50000 limit; all query '
             'sequences of length <=3; devices of 5 and 12 qubits with selections of up to 4 qubits '
             '(matrices and Markov paths)',
    'thorough': 'as quick with all triples of generators on 2 qubits and paths of one more step',
}
ASSUMPTIONS = ['numpy.random.Generator draws: poisson(lam) has the Poisson law, choice the given '
               'probabilities, random the uniform law (the enumeration replaces them)',
               'generators with rate below 1e-5 are dropped, as coded']
CASE_TIMEOUT = 200


def gens(n):
    """All generators of the documented kinds on n qubits."""
    out = [(b, a, (q,)) for q in range(n) for b, a in (('1', '0'), ('0', '1'))]
    for i, j in itertools.permutations(range(n), 2):
        out += [(b, a, (i, j)) for b, a in (('11', '00'), ('00', '11'), ('10', '01'),
                                            ('01', '10'))]
    return out


def ref_generator(n, glist, rates, sel=None):
    """Reference generator matrix on ascending qubits sel."""
    sel = list(range(n)) if sel is None else sorted(sel)
    dim = 2 ** len(sel)
    mat = np.zeros((dim, dim))
    for (b, a, qs), rate in zip(glist, rates):
        if not set(qs) <= set(sel):
            continue
        pos = [sel.index(q) for q in qs]
        for x in range(dim):
            if all(((x >> p) & 1) == int(c) for p, c in zip(pos, a)):
                y = x
                for p, c in zip(pos, b):
                    y = (y & ~(1 << p)) | (int(c) << p)
                mat[y, x] += rate
                mat[x, x] -= rate
    return mat


def cases(tier):
    big = tier == 'thorough'
    for n in (1, 2, 3):
        for g in gens(n):
            yield ['matrix', n, [list(g)], [0.05]]
    for g, h in itertools.combinations(gens(2), 2):
        yield ['matrix', 2, [list(g), list(h)], [0.03, 0.11]]
    if big:
        for trip in itertools.combinations(gens(2), 3):
            yield ['matrix', 2, [list(g) for g in trip], [0.03, 0.11, 0.07]]
    for fam in range(4):
        gl = gens(3)
        rates = [round(0.004 * ((i * 7 + fam * 5) % 11), 4) for i in range(len(gl))]
        yield ['matrix', 3, [list(g) for g in gl], rates]
    # generators on three qubits, next to one- and two-qubit ones
    strings = qsim.bitstrings(3)
    for b, a in itertools.permutations(strings, 2):
        for qs in ([0, 1, 2], [2, 0, 1], [3, 1, 0]):
            yield ['matrix', max(qs) + 1, [['1', '0', [qs[0]]], [b, a, qs],
                                           ['10', '01', [qs[2], qs[0]]]], [0.02, 0.07, 0.03]]
    for sel in [list(c) for r in range(1, 5) for c in itertools.combinations(range(4), r)]:
        yield ['pairs', sel]
    yield ['matrix', 2, [], []]
    for rate in (3e-5, 2e-4, 8e-4, 0.4):
        for g in gens(2):
            yield ['matrix', 2, [list(g), ['1', '0', [1]]], [rate, 0.05]]
    yield ['matrix', 3, [['1', '0', [0]]], [0.0]]
    # sampling: integer rates (in units) so that branching probabilities are multiples of 1/K
    small = []
    for n in (1, 2):
        for g in gens(n):
            small.append([n, [list(g)], [1]])
    for g, h in itertools.combinations(gens(2), 2):
        small.append([2, [list(g), list(h)], [1, 2]])
    small.append([2, [list(g) for g in gens(2)[:6]], [1, 2, 1, 1, 2, 1]])
    small.append([3, [['1', '0', [0]], ['0', '1', [2]], ['10', '01', [2, 1]]], [1, 1, 2]])
    small.append([3, [['11', '00', [1, 2]], ['1', '0', [1]], ['0', '1', [0]]], [2, 1, 1]])
    for item in small:
        yield ['sample'] + item + [0.02]
    yield ['sample', 2, [['1', '0', [0]], ['10', '01', [0, 1]]], [1, 2], 0.1]
    yield ['sample', 2, [['1', '0', [0]], ['10', '01', [0, 1]]], [1, 2], 0.0001]
    yield ['sample', 1, [['1', '0', [0]], ['0', '1', [0]]], [2, 1], 0.00005]
    yield ['batches']
    for seed in (0, 3, 77):
        yield ['seeded', seed]
    for sel in ([10, 2, 11], [2, 10], [11], [3, 10], [10, 3, 2, 11], [0, 11, 10], [9, 10, 2]):
        yield ['wide', 12, sel]
    for sel in ([4, 0, 2, 3, 1], [3, 4, 0, 1], [1, 2, 4]):
        yield ['wide', 5, sel]
    for seq in itertools.product(range(6), repeat=3):
        yield ['history', list(seq)]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def fix(glist):
    return [(g[0], g[1], tuple(g[2])) for g in glist]


def dense(mat):
    return np.asarray(mat.todense()) if hasattr(mat, 'todense') else np.asarray(mat)


def run_matrix(case, ctx):
    _, n, glist, rates = case
    glist = fix(glist)
    mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=n)
    ctx.step()
    for sel in [None] + [list(s) for r in range(1, n + 1)
                         for s in itertools.combinations(range(n), r)]:
        ref = ref_generator(n, glist, rates, sel)
        args = [] if sel is None else [sel]
        ctx.close('generator', dense(mit.generator_matrix(*args)), ref, 1e-12, str(sel))
        ctx.close('assignment', np.asarray(mit.assignment_matrix(*args)), la.expm(ref), 1e-9,
                  str(sel))
        ctx.close('mitigation', np.asarray(mit.mitigation_matrix(*args)), la.expm(-ref), 1e-9,
                  str(sel))
        strength = max(0.0, np.max(-np.diag(ref)))
        ctx.close('noise_strength', mit.noise_strength(*args), strength, 1e-12)
        ctx.step(4)
        ctx.outcome(ref)
    full = ref_generator(n, glist, rates)
    gamma = np.exp(2 * max(0.0, np.max(-np.diag(full))))
    ctx.close('stddev_bound', mit.stddev_upper_bound(25), gamma / 5, 1e-9)
    ctx.close('fidelity', mit.assignment_fidelity(), np.mean(np.diag(la.expm(full))), 1e-9)
    if glist and max(q for g in glist for q in g[2]) == n - 1:
        auto = CTMPExpvalMeasMitigator(glist, rates)
        ctx.close('num_qubits', dense(auto.generator_matrix()), full, 1e-12)


def run_pairs(case, ctx):
    """Queries for one selection of qubits do not change those for another."""
    first = case[1]
    glist = gens(4)
    rates = [round(0.003 * (1 + (i * 7) % 13), 4) for i in range(len(glist))]
    everything = [list(c) for r in range(1, 5) for c in itertools.combinations(range(4), r)]

    def ask(mit, sel):
        ref = ref_generator(4, glist, rates, sel)
        ctx.close('pair_strength', mit.noise_strength(sel), np.max(-np.diag(ref)), 1e-12, str(sel))
        ctx.close('pair_generator', dense(mit.generator_matrix(sel)), ref, 1e-12, str(sel))
        ctx.close('pair_mitigation', np.asarray(mit.mitigation_matrix(sel)), la.expm(-ref), 1e-9,
                  str(sel))
        ctx.step(3)
        ctx.outcome(ref)
    mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=4)
    ask(mit, first)
    for second in everything:
        ask(mit, second)
    for second in everything[::-1]:
        ask(mit, second)


class Scripted(np.random.Generator):
    """Random source whose draws enumerate all choices.

    Sample s of the run uses step count `alpha`, start state and uniform
    numbers from a fixed table, in sample order, however the draws are
    batched.  The first `cycles` complete enumerations are followed by
    idle samples (no step, start state 0).
    """

    def __init__(self):
        super().__init__(np.random.PCG64(7))
        self.reset(0, [], [[]], 0)

    def reset(self, alpha, starts, tuples, cycles):
        """Start a run."""
        self.alpha, self.cycles = alpha, cycles
        self.table = [(x, t) for x in starts for t in tuples]
        self.limit = cycles * len(self.table)
        self.pos = dict(alpha=0, x=0, r=0)
        self.lam, self.probs = [], []

    def poisson(self, lam=1.0, size=None):
        num = 1 if size is None else int(np.prod(size))
        self.lam.append(lam)
        start = self.pos['alpha']
        self.pos['alpha'] += num
        out = np.array([self.alpha if s < self.limit else 0
                        for s in range(start, start + num)], dtype=int)
        return int(out[0]) if size is None else out

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        num = 1 if size is None else int(np.prod(size))
        self.probs.append(None if p is None else np.array(p, dtype=float))
        start = self.pos['x']
        self.pos['x'] += num
        out = np.array([self.table[s % len(self.table)][0] if s < self.limit else 0
                        for s in range(start, start + num)], dtype=int)
        if not np.isscalar(a) and not isinstance(a, (int, np.integer)):
            out = np.asarray(a)[out]
        return out[0] if size is None else out

    def random(self, size=None, dtype=np.float64, out=None):
        num = 1 if size is None else int(np.prod(size))
        start = self.pos['r']
        self.pos['r'] += num
        vals = np.empty(num)
        for i in range(num):
            sample, step = divmod(start + i, self.alpha or 1)
            vals[i] = self.table[sample % len(self.table)][1][step]
        return vals[0] if size is None else vals

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def drive(ctx, mit, rng, n, gmat, counts, diag, qubits, maxstep, levels):
    """Explore all Markov paths of the sampler for every step count."""
    gamma = max(0.0, np.max(-np.diag(gmat)))
    dim = gmat.shape[0]
    bmat = np.eye(dim) + (gmat / gamma if gamma else 0)
    k = dim.bit_length() - 1
    qubits = list(range(k)) if qubits is None else qubits
    order = np.argsort(qubits)

    def remap(x):
        """index by count bits -> index by ascending qubits"""
        return sum(((x >> int(o)) & 1) << pos for pos, o in enumerate(order))
    shots = sum(counts.values())
    probs = np.zeros(dim)
    for key, val in counts.items():
        probs[remap(int(key, 2))] += val / shots
    obs = np.zeros(dim)
    ref_diag = [(-1.0) ** bin(i).count('1') for i in range(dim)] if diag is None else diag
    for x in range(dim):
        obs[remap(x)] = ref_diag[x]
    unit = np.gcd.reduce([int(v) for v in counts.values()])
    starts = [remap(int(key, 2)) for key, val in counts.items() for _ in range(val // unit)]

    def call():
        return mit.expectation_value(counts, diagonal=diag, qubits=list(qubits))
    # learn the number of samples with an idle run
    rng.reset(0, [0], [[]], 0)
    val, std = call()
    ctx.step()
    total = rng.pos['x']
    if not total or total != rng.pos['alpha'] or rng.pos['r']:
        return False
    scale = np.exp(2 * gamma)
    ctx.close('idle', val, scale * obs[0], 1e-7)
    ctx.check('enough_samples', total >= shots, '%d samples for %d shots' % (total, shots))
    ctx.close('stddev', std, scale / np.sqrt(shots), 1e-9)
    for lam in rng.lam:
        ctx.close('poisson_rate', lam, gamma, 1e-9)
    for p in rng.probs:
        ctx.check('start_law', p is not None, 'uniform start')
        ctx.close('start_law', p, probs, 1e-12)
    for steps in range(0, maxstep + 1):
        if steps and not gamma:
            break
        grid = [(i + 0.5) / levels for i in range(levels)]
        tuples = list(itertools.product(grid, repeat=steps))
        size = len(starts) * len(tuples)
        cycles = total // size
        if cycles == 0:
            ctx.fail('model', 'enumeration %d larger than sample count %d' % (size, total))
        rng.reset(steps, starts, tuples, cycles)
        val, std = call()
        ctx.step()
        if rng.pos['x'] != total or rng.pos['r'] != cycles * size * steps:
            return False
        mean = (-1) ** steps * (obs @ np.linalg.matrix_power(bmat, steps) @ probs)
        idle = total - cycles * size
        want = scale * (mean * cycles * size + idle * obs[0]) / total
        ctx.close('markov_average', val, want, 1e-7 * scale, '%d steps' % steps)
        ctx.state(steps, starts, size)
        ctx.kind('markov_paths', size)
        ctx.outcome(val)
    return True


def run_sample(case, ctx):
    _, n, glist, units, scale = case
    glist = fix(glist)
    rates = [u * scale for u in units]
    rng = Scripted()
    mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=n, seed=rng)
    sels = [list(s) for s in qsim.ordered_subsets(range(n), range(1, n + 1))]
    for sel in sels:
        gmat = ref_generator(n, glist, rates, sel)
        levels = int(round(max(np.max(-np.diag(gmat)) / scale, 1)))
        k = len(sel)
        counts = {format(i, '0%db' % k): 500 * (1 + i % 2) for i in range(2 ** k) if i != 1} \
            if k > 1 else {'0': 1000, '1': 3000}
        for diag in ([None] + [list(0.5 * np.arange(2 ** k) - 1)] +
                     ([list(e) for e in np.eye(2 ** k)] if k <= 2 else [])):
            maxstep = 4 if levels <= 2 else (3 if levels <= 5 else 2)
            if ctx.tier == 'thorough' and levels <= 5:
                maxstep += 1
            # sample count is at least 1600; keep the enumeration inside it
            while (sum(counts.values()) // 500) * levels ** maxstep > sum(counts.values()):
                maxstep -= 1
            if not drive(ctx, mit, rng, n, gmat, counts, diag, sel, maxstep, levels):
                # the sampler draws in another pattern: decide with enumerated seeds
                fallback(ctx, n, glist, rates, gmat, counts, diag, sel)


def fallback(ctx, n, glist, rates, gmat, counts, diag, sel):
    ctx.kind('fallback')
    order = np.argsort(sel)
    dim = gmat.shape[0]

    def remap(x):
        return sum(((x >> int(o)) & 1) << pos for pos, o in enumerate(order))
    shots = sum(counts.values())
    probs, obs = np.zeros(dim), np.zeros(dim)
    for key, val in counts.items():
        probs[remap(int(key, 2))] += val / shots
    ref = [(-1.0) ** bin(i).count('1') for i in range(dim)] if diag is None else diag
    for x in range(dim):
        obs[remap(x)] = ref[x]
    want = obs @ la.expm(-gmat) @ probs
    vals = []
    for seed in range(30):
        mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=n, seed=seed)
        vals.append(mit.expectation_value(counts, diagonal=diag, qubits=list(sel))[0])
        ctx.step()
    spread = np.exp(2 * max(0, np.max(-np.diag(gmat)))) * np.max(np.abs(obs))
    ctx.check('seed_average', abs(np.mean(vals) - want) < 6 * spread / np.sqrt(30 * 1600),
              (np.mean(vals), want))


def run_batches(case, ctx):
    """Sample counts above the batch limit."""
    glist = [('1', '0', (0,)), ('0', '1', (1,))]
    rates = [0.05, 0.05]
    rng = Scripted()
    mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=2, seed=rng)
    gmat = ref_generator(2, glist, rates)
    for tot in (49000, 120000, 240000):
        counts = {'00': tot // 4, '10': tot // 4, '11': tot // 2}
        if not drive(ctx, mit, rng, 2, gmat, counts, None, [0, 1], 2, 2):
            fallback(ctx, 2, glist, rates, gmat, counts, None, [0, 1])


WIDE = {12: [('1', '0', (10,)), ('0', '1', (1,)), ('10', '01', (10, 2)), ('11', '00', (2, 11)),
             ('0', '1', (11,)), ('01', '10', (3, 10)), ('1', '0', (0,)), ('00', '11', (11, 10)),
             ('1', '0', (2,)), ('10', '01', (9, 10))],
        5: [('1', '0', (0,)), ('0', '1', (4,)), ('10', '01', (4, 0)), ('11', '00', (3, 1)),
            ('01', '10', (2, 4)), ('1', '0', (3,)), ('0', '1', (1,)), ('00', '11', (4, 3))]}


def run_wide(case, ctx):
    """Qubit numbers with two digits and larger registers."""
    _, n, sel = case
    glist = WIDE[n]
    units = [1 + i % 2 for i in range(len(glist))]
    scale = 0.01
    rates = [u * scale for u in units]
    rng = Scripted()
    mit = CTMPExpvalMeasMitigator(glist, rates, num_qubits=n, seed=rng)
    gmat = ref_generator(n, glist, rates, sel)
    asc = sorted(sel)
    ctx.close('generator', dense(mit.generator_matrix(asc)), gmat, 1e-12, str(asc))
    ctx.close('assignment', np.asarray(mit.assignment_matrix(asc)), la.expm(gmat), 1e-9, str(asc))
    ctx.close('mitigation', np.asarray(mit.mitigation_matrix(asc)), la.expm(-gmat), 1e-9, str(asc))
    ctx.close('noise_strength', mit.noise_strength(asc), np.max(-np.diag(gmat)), 1e-12)
    ctx.step(4)
    levels = int(round(max(np.max(-np.diag(gmat)) / scale, 1)))
    k = len(sel)
    counts = {format(i, '0%db' % k): 500 * (1 + i % 3) for i in range(2 ** k) if i % 7 != 1}
    for diag in (None, list(0.25 * np.arange(2 ** k) - 1)):
        maxstep = 3
        while (sum(counts.values()) // 500) * levels ** maxstep > sum(counts.values()):
            maxstep -= 1
        if not drive(ctx, mit, rng, n, gmat, counts, diag, sel, maxstep, levels):
            fallback(ctx, n, glist, rates, gmat, counts, diag, sel)


HG = [('1', '0', (0,)), ('0', '1', (1,)), ('10', '01', (1, 2)), ('11', '00', (0, 2))]
HR = [0.03, 0.02, 0.05, 0.01]


def run_seeded(case, ctx):
    """The same seed, given in any way, gives the same values."""
    seed = case[1]
    counts = {'00': 700, '10': 200, '11': 100}
    glist = [('1', '0', (0,)), ('0', '1', (1,)), ('10', '01', (1, 0))]
    vals = []
    for way in range(5):
        mit = CTMPExpvalMeasMitigator(glist, [0.05, 0.1, 0.07], num_qubits=2, seed=[
            seed, np.random.default_rng(seed), None, seed + 1, None][way])
        if way == 2:
            mit.seed(seed)
        elif way >= 3:
            mit.expectation_value(counts)
            mit.seed(np.random.default_rng(seed) if way == 3 else seed)
        vals.append([mit.expectation_value(counts)[0] for _ in range(3)])
        ctx.step(3)
        ctx.close('seeded', vals[-1], vals[0], 1e-12, 'way %d' % way)
    ctx.check('goes_on', len(set(vals[0])) > 1, 'every call draws the same samples')
    ctx.outcome(vals)


def query(mit, q):
    if q == 0:
        return dense(mit.generator_matrix())
    if q == 1:
        return np.asarray(mit.assignment_matrix([0, 2]))
    if q == 2:
        return np.asarray(mit.mitigation_matrix())
    if q == 3:
        return mit.noise_strength([1, 2])
    if q == 4:
        mit.seed(5)
        return np.array(mit.expectation_value({'000': 100, '011': 60, '110': 40}))
    mit.seed(6)
    return np.array(expectation_value({'00': 100, '01': 60, '10': 40}, qubits=[2, 1],
                                      diagonal=[1, 2, 3, 4], meas_mitigator=mit))


def run_history(case, ctx):
    mit = CTMPExpvalMeasMitigator(HG, HR, num_qubits=3, seed=1)
    for q in case[1]:
        got = query(mit, q)
        want = query(CTMPExpvalMeasMitigator(HG, HR, num_qubits=3, seed=1), q)
        ctx.step(2)
        ctx.close('history', got, want, 1e-12)
        ctx.outcome(q, got)
