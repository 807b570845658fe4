"""C14: randomized benchmarking fitters."""
import itertools

import numpy as np
from qiskit.ignis.verification.randomized_benchmarking import (RBFitter, InterleavedRBFitter,
                                                               PurityRBFitter,
                                                               CNOTDihedralRBFitter)

from vlib import qsim

ID = 'C14'
BOUNDS = {
    'quick': 'aggregation: every pattern shape with up to 3 groups of 1-3 qubits (<= 4 qubits), '
             'seed number lists of length 1-3, 3 lengths; every ordered split of the 6 '
             'experiments of two seeds over <= 2 results and every split of their shots; '
             'interleaved / CNOT-dihedral / purity fitters over the same; purity for groups of 1 '
             'and 2 qubits, every order and split of the 6 (1-qubit) experiments over <= 2 '
             'results; 12 lengths, 12 seeds, 6 groups; decay recovery on a grid of 5x7x5 (a, alpha, b) x 1-3 qubits x 3 length '
             'lists; formulas on a 7x7 grid of decays',
    'thorough': 'splits over <= 3 results, 3-qubit purity, finer grids (8x12x8)',
}
ASSUMPTIONS = ['decay parameters are compared to 2e-3 where the exponential determines them',
               'uncertainties: first-order propagation, or the relative-error variant which the '
               'repository\'s recorded fits pin (a known finding)']

NAMES = {'std': 'rb', 'int': 'rb_interleaved', 'Z': 'rb_cnotdihedral_Z',
         'X': 'rb_cnotdihedral_X'}
PATTERNS = [[[0]], [[2]], [[0, 1]], [[1, 0]], [[0, 1, 2]], [[0], [1]], [[1], [0, 2]],
            [[0, 2], [1]], [[0, 1], [2, 3]], [[3], [1], [0]], [[2], [0, 1], [3]], [[0, 1, 2], [3]]]


def survival(seed, k, group, alpha=0.9):
    """A target survival with a spread over the seeds."""
    n = len(group)
    base = 1 / 2 ** n
    y = (1 - base) * 0.97 * alpha ** (1 + 3 * k) + base
    return y * (1 - 0.011 * ((seed * 7 + k * 3 + group[0]) % 5))


def experiment(pattern, survivals, shots, salt=0):
    """Counts over all clbits, product of the groups' distributions plus a correlated part."""
    dists = []
    for g, (group, surv) in enumerate(zip(pattern, survivals)):
        n = len(group)
        rest = np.array([1 + ((i * 5 + salt * 3 + g) % 4) for i in range(1, 2 ** n)], float)
        dists.append(np.concatenate([[surv], (1 - surv) * rest / rest.sum()]))
    counts = {}
    total = sum(len(g) for g in pattern)
    for combo in itertools.product(*[range(len(d)) for d in dists]):
        prob = 1.0
        value = 0
        off = 0
        for group, val, dist in zip(pattern, combo, dists):
            prob *= dist[val]
            value |= val << off
            off += len(group)
        num = int(round(prob * shots))
        if num:
            counts[format(value, '0%db' % total)] = num
    return counts


def freq0(pattern, p, counts):
    """Relative frequency of zeros on the bits of group p."""
    start = sum(len(g) for g in pattern[:p])
    bits = range(start, start + len(pattern[p]))
    good = sum(c for s, c in counts.items() if all(s[-1 - b] == '0' for b in bits))
    return good / sum(counts.values())


def all_experiments(kind, pattern, seeds, nlen, alpha=0.9, shots=1000):
    """dict (seed, k) -> (name, counts)."""
    exps = {}
    for seed in seeds:
        for k in range(nlen):
            counts = experiment(pattern, [survival(seed, k, g, alpha) for g in pattern],
                                shots + 17 * k, salt=seed + k)
            exps[seed, k] = ('%s_length_%d_seed_%d' % (NAMES[kind], k, seed), counts)
    return exps


def result_of(pattern, exps):
    """A Result holding the given (name, counts)."""
    width = sum(len(g) for g in pattern)
    return qsim.make_result([(name, counts, dict(width=width)) for name, counts in exps])


def lengths_for(pattern, nlen):
    """2D list of lengths, other patterns with multipliers."""
    return [[(1 + 3 * k) * (p % 2 + 1) for k in range(nlen)] for p in range(len(pattern))]


def expected_raw(pattern, exps, seeds, nlen):
    """raw data from the definition."""
    return [[[freq0(pattern, p, exps[seed, k][1]) for k in range(nlen)] for seed in seeds]
            for p in range(len(pattern))]


def check_stats(ctx, ydata, raw, what):
    """mean and spread over the seeds."""
    for p, rows in enumerate(raw):
        ctx.close('mean', ydata[p]['mean'], np.mean(rows, 0), 1e-9, what)
        if len(rows) == 1:
            ctx.check('std', ydata[p]['std'] is None, 'spread of one seed: %s' % ydata[p]['std'])
        else:
            ctx.close('std', ydata[p]['std'], np.std(rows, 0), 1e-9, what)


def fun(x, a, alpha, b):
    """The RB decay."""
    return a * alpha ** np.asarray(x, float) + b


def relclose(x, y, tol=1e-5):
    """Relative comparison."""
    return np.isfinite(x) and abs(x - y) <= tol * abs(y) + 1e-15


def check_either(ctx, clause, got, options):
    """One of the admissible uncertainty formulas."""
    ctx.check(clause, any(relclose(got, opt) for opt in options),
              'got %r, expected one of %r' % (got, options))


def check_fit(ctx, pattern, lengths, ydata, fit, check_cov=True):
    """The reported fit is a least-squares optimum and the derived values are consistent."""
    for p, group in enumerate(pattern):
        dim = 2 ** len(group)
        got = fit[p]
        params = np.array(got['params'], float)
        ctx.check('fit-bounds', np.all(params >= -1e-12) and np.all(params <= 1 + 1e-12), params)
        alpha, aerr = params[1], got['params_err'][1]
        ctx.close('epc', got['epc'], (dim - 1) / dim * (1 - alpha), 1e-9)
        if np.isfinite(aerr):
            check_either(ctx, 'epc_err', got['epc_err'],
                         [(dim - 1) / dim * aerr, (dim - 1) / dim * aerr / alpha])
        sigma = ydata[p]['std']
        if sigma is not None and np.count_nonzero(sigma) < len(sigma):
            sigma = None
        if sigma is None:
            sigma = np.ones(len(lengths[p]))
        mean = np.asarray(ydata[p]['mean'])

        def cost(q, p=p, mean=mean, sigma=sigma):
            return np.sum(((fun(lengths[p], *q) - mean) / sigma) ** 2)
        best = cost(params)
        for i in range(3):
            for eps in (1e-3, -1e-3):
                q = params.copy()
                q[i] = min(1, max(0, q[i] + eps))
                ctx.check('fit-optimal', cost(q) >= best - 1e-7 * max(1, best),
                          'pattern %d: cost %g at %s, %g at %s' % (p, best, params, cost(q), q))
        if check_cov and len(mean) > 3 and np.all(params > 1e-3) and np.all(params < 1 - 1e-3):
            x = np.asarray(lengths[p], float)
            jac = np.stack([alpha ** x, params[0] * x * alpha ** (x - 1), np.ones(len(x))],
                           1) / sigma[:, None]
            cov = np.linalg.inv(jac.T @ jac) * best / (len(x) - 3)
            err = np.sqrt(np.diag(cov))
            if np.linalg.cond(jac) < 1e3 and best > 1e-12:
                ctx.check('params_err', np.allclose(got['params_err'], err, rtol=0.05),
                          'got %s, propagated %s' % (got['params_err'], err))


def snapshot(results):
    """Counts of result objects, to detect modification."""
    return [[dict(e.data.counts) for e in r.results] for r in results]


# ---------------------------------------------------------------- aggregation
def run_agg(case, ctx):
    """Standard RB: all patterns and seed lists, one result per seed."""
    _, pattern, seeds, nlen, one = case
    lengths = lengths_for(pattern, nlen)
    exps = all_experiments('std', pattern, seeds, nlen)
    groups = ([[exps[s, k] for s in seeds for k in range(nlen)]] if one
              else [[exps[s, k] for k in range(nlen)] for s in seeds])
    results = [result_of(pattern, g) for g in groups]
    before = snapshot(results)
    fitter = RBFitter(results[0], np.array(lengths) if one else lengths, pattern)
    for res in results[1:]:
        fitter.add_data([res])
        ctx.step()
    ctx.step()
    ctx.check('seeds', sorted(fitter.seeds) == sorted(seeds), fitter.seeds)
    want = expected_raw(pattern, exps, fitter.seeds, nlen)
    ctx.close('raw', np.array(fitter.raw_data), np.array(want), 1e-10)
    check_stats(ctx, fitter.ydata, want, 'stats')
    check_fit(ctx, pattern, lengths, fitter.ydata, fitter.fit)
    ctx.check('results', len(fitter.results) == len(results), 'results %d' % len(fitter.results))
    ctx.equal('lengths', np.array(fitter.cliff_lengths), np.array(lengths))
    ctx.equal('unmodified', snapshot(results), before)
    # the very same data once more: nothing changes
    for res in results:
        fitter.add_data(res)
    ctx.close('repeat', np.array(fitter.raw_data), np.array(want), 1e-10)
    check_stats(ctx, fitter.ydata, want, 'stats after repetition')
    # further shots of a circuit are pooled
    (seed0, k0) = (seeds[-1], nlen - 1)
    extra = experiment(pattern, [0.5] * len(pattern), 400, salt=3)
    name, counts = exps[seed0, k0]
    fitter.add_data(result_of(pattern, [(name, extra)]), rerun_fit=False)
    ctx.close('no-rerun', np.array(fitter.raw_data), np.array(want), 1e-10)
    fitter.calc_data()
    fitter.calc_statistics()
    fitter.fit_data()
    pooled = {s: 2 * counts.get(s, 0) + extra.get(s, 0) for s in set(counts) | set(extra)}
    exps2 = dict(exps)
    exps2[seed0, k0] = (name, pooled)
    want = expected_raw(pattern, exps2, fitter.seeds, nlen)
    ctx.close('pooled', np.array(fitter.raw_data), np.array(want), 1e-10)
    check_stats(ctx, fitter.ydata, want, 'stats pooled')
    check_fit(ctx, pattern, lengths, fitter.ydata, fitter.fit)
    ctx.outcome(fitter.raw_data)


def feed(parts, pattern, exps, ctor, add, as_list):
    """Give the parts to a fitter, recalculating only at the last."""
    fitter = ctor(None)
    results = [result_of(pattern, [exps[key] for key in part]) for part in parts]
    if as_list:
        add(fitter, results, True)
    else:
        for i, res in enumerate(results):
            add(fitter, res, i == len(results) - 1)
    return fitter


def run_split(case, ctx):
    """Standard RB: every ordered split of the experiments over results."""
    _, pattern, seeds, parts, as_list = case
    nlen = 3
    lengths = lengths_for(pattern, nlen)
    exps = all_experiments('std', pattern, seeds, nlen)
    parts = [[tuple(k) for k in part] for part in parts]
    fitter = feed(parts, pattern, exps, lambda r: RBFitter(r, lengths, pattern),
                  lambda f, r, rerun: f.add_data(r, rerun), as_list)
    ctx.step(len(parts))
    ctx.check('seeds', sorted(fitter.seeds) == sorted(seeds), fitter.seeds)
    want = expected_raw(pattern, exps, fitter.seeds, nlen)
    ctx.close('raw-split', np.array(fitter.raw_data), np.array(want), 1e-10)
    check_stats(ctx, fitter.ydata, want, 'stats')
    check_fit(ctx, pattern, lengths, fitter.ydata, fitter.fit)
    ctx.outcome(parts)


def run_shots(case, ctx):
    """Shots of every circuit split over two results in a given proportion."""
    _, pattern, masks = case
    nlen, seeds = 3, [0, 1]
    lengths = lengths_for(pattern, nlen)
    exps = all_experiments('std', pattern, seeds, nlen)
    first, second = [], []
    for i, key in enumerate(sorted(exps)):
        name, counts = exps[key]
        if masks >> i & 1:
            part = {s: c // 3 for s, c in counts.items() if c // 3}
            rest = {s: c - part.get(s, 0) for s, c in counts.items()}
            first.append((name, part))
            second.append((name, rest))
        else:
            first.append((name, counts))
    results = [result_of(pattern, first)] + ([result_of(pattern, second)] if second else [])
    fitter = RBFitter(results, lengths, pattern)
    ctx.step()
    want = expected_raw(pattern, exps, fitter.seeds, nlen)
    ctx.close('raw-shots', np.array(fitter.raw_data), np.array(want), 1e-10)
    check_stats(ctx, fitter.ydata, want, 'stats')
    ctx.outcome(masks)


# ------------------------------------------------------------ decay recovery
def run_decay(case, ctx):
    """Exact exponential data is fitted exactly."""
    _, nq, ampl, alpha, base, lens, spread = case
    shots = 10 ** 9
    pattern = [list(range(nq))]
    seeds = [0, 1] if spread else [0]
    exps = []
    for seed in seeds:
        for k, m in enumerate(lens):
            y = ampl * alpha ** m + base
            y += 0.002 * (1 if seed else -1) if spread else 0
            exps.append(('rb_length_%d_seed_%d' % (k, seed),
                         experiment(pattern, [y], shots, salt=k)))
    fitter = RBFitter(result_of(pattern, exps), [lens], pattern)
    ctx.step()
    check_fit(ctx, pattern, [lens], fitter.ydata, fitter.fit, check_cov=False)
    fit = fitter.fit[0]
    got = fun(lens, *fit['params'])
    ctx.close('fitted-curve', got, fun(lens, ampl, alpha, base), 1e-4,
              'curve at (%g, %g, %g): %s' % (ampl, alpha, base, fit['params']))
    # where the curve determines the parameters, they are recovered
    x = np.asarray(lens, float)
    jac = np.stack([alpha ** x, ampl * x * alpha ** (x - 1), np.ones(len(x))], 1)
    if np.linalg.svd(jac)[1][-1] > 0.05:
        ctx.close('alpha', fit['params'][1], alpha, 2e-3, 'fit %s' % fit['params'])
        ctx.close('epc-value', fit['epc'], (2 ** nq - 1) / 2 ** nq * (1 - alpha), 2e-3)
    ctx.close('fit-fun', np.array([fitter.rb_fit_fun(m, 0.5, 0.9, 0.25) for m in lens]),
              fun(lens, 0.5, 0.9, 0.25), 1e-9)
    ctx.outcome(case)


def run_guess(case, ctx):
    """Any first two points give a usable starting guess."""
    _, nq, y0, y1, lens = case
    pattern = [list(range(nq))]
    ys = [y0, y1] + [1 / 2 ** nq] * (len(lens) - 2)
    exps = [('rb_length_%d_seed_0' % k, experiment(pattern, [y], 4096, salt=k))
            for k, y in enumerate(ys)]
    fitter = RBFitter(result_of(pattern, exps), [lens], pattern)
    ctx.step()
    ctx.check('finite', np.all(np.isfinite(fitter.fit[0]['params'])), fitter.fit)
    ctx.outcome(fitter.fit[0]['params'])


# ------------------------------------------------- interleaved / CNOT-dihedral
def check_interleaved(ctx, pattern, fitter):
    """Equations (4) and (5) of arXiv:1203.4550."""
    ctx.check('patterns', len(fitter.fit_int) == len(pattern), len(fitter.fit_int))
    for p, group in enumerate(pattern):
        dim = 2 ** len(group)
        alpha = fitter.fit[0][p]['params'][1]
        alpha_c = fitter.fit[1][p]['params'][1]
        err = fitter.fit[0][p]['params_err'][1]
        err_c = fitter.fit[1][p]['params_err'][1]
        got = fitter.fit_int[p]
        for key, val in (('alpha', alpha), ('alpha_c', alpha_c)):
            ctx.close('int-' + key, got[key], val, 1e-10)
        est = (dim - 1) / dim * (1 - alpha_c / alpha)
        ctx.close('epc_est', got['epc_est'], est, 1e-9)
        one = (dim - 1) / dim * (abs(alpha - alpha_c / alpha) + 1 - alpha)
        two = (2 * (dim ** 2 - 1) * (1 - alpha) / (alpha * dim ** 2)
               + 4 * np.sqrt(1 - alpha) * np.sqrt(dim ** 2 - 1) / alpha)
        ctx.close('systematic_err', got['systematic_err'], min(one, two), 1e-9)
        ctx.close('systematic_err_L', got['systematic_err_L'], est - min(one, two), 1e-9)
        ctx.close('systematic_err_R', got['systematic_err_R'], est + min(one, two), 1e-9)
        if np.isfinite(err) and np.isfinite(err_c):
            ctx.check('int-errs', relclose(got['alpha_err'], err)
                      and relclose(got['alpha_c_err'], err_c), got)
            want = (dim - 1) / dim * alpha_c / alpha * np.hypot(err / alpha, err_c / alpha_c)
            ctx.check('epc_est_err', relclose(got['epc_est_err'], want),
                      '%r, expected %r' % (got['epc_est_err'], want))


def check_dihedral(ctx, pattern, fitter):
    """npjqi201612."""
    ctx.check('patterns', len(fitter.fit_cnotdihedral) == len(pattern), 'patterns')
    for p, group in enumerate(pattern):
        dim = 2 ** len(group)
        az, ar = [fitter.fit[i][p]['params'][1] for i in (0, 1)]
        ez, er = [fitter.fit[i][p]['params_err'][1] for i in (0, 1)]
        got = fitter.fit_cnotdihedral[p]
        alpha = (az + dim * ar) / (dim + 1)
        ctx.close('dih-alpha', got['alpha'], alpha, 1e-9)
        ctx.close('epg_est', got['epg_est'], (dim - 1) / dim * (1 - alpha), 1e-9)
        if np.isfinite(ez) and np.isfinite(er):
            exact = np.hypot(ez, dim * er) / (dim + 1)
            coded = np.hypot(ez / az, dim * er / ar) / (dim + 1)
            check_either(ctx, 'dih-alpha_err', got['alpha_err'], [exact, coded])
            check_either(ctx, 'epg_est_err', got['epg_est_err'],
                         [(dim - 1) / dim * got['alpha_err'],
                          (dim - 1) / dim * got['alpha_err'] / alpha])


TWO = {'interleaved': ('std', 'int', InterleavedRBFitter, check_interleaved),
       'dihedral': ('Z', 'X', CNOTDihedralRBFitter, check_dihedral)}


def run_two(case, ctx):
    """Fitters of two data sets: patterns, seeds, histories, formulas."""
    _, which, pattern, seeds, alphas, history = case[:6]
    one, two, cls, checker = TWO[which]
    nlen = case[6] if len(case) > 6 else 5
    default = pattern is None
    pattern = pattern or [[0]]
    lengths = lengths_for(pattern, nlen)
    sets = [all_experiments(kind, pattern, seeds, nlen, alpha)
            for kind, alpha in zip((one, two), alphas)]
    per_seed = [[result_of(pattern, [exps[s, k] for k in range(nlen)]) for s in seeds]
                for exps in sets]
    args = [lengths] if default else [lengths, pattern]
    if history == 'ctor':
        fitter = cls(per_seed[0], per_seed[1], *args)
        nres = len(seeds)
    elif history == 'single':
        both = [result_of(pattern, list(exps.values())) for exps in sets]
        fitter = cls(both[0], both[1], *args)
        nres = 1
    elif history == 'add':
        fitter = cls(per_seed[0][0], per_seed[1][0], *args)
        for res_a, res_b in zip(per_seed[0][1:], per_seed[1][1:]):
            fitter.add_data([res_a], [res_b])
        nres = len(seeds)
    elif history == 'sides':
        fitter = cls(per_seed[0][0], per_seed[1][0], *args)
        for i in range(1, len(seeds)):
            for args_now in ((per_seed[0][i], None), (None, per_seed[1][i])):
                fitter.add_data(*args_now)
                checker(ctx, pattern, fitter)
        nres = len(seeds)
    elif history == 'late':
        fitter = cls(None, None, *args)
        fitter.add_data(per_seed[0], per_seed[1], False)
        fitter.calc_data()
        fitter.calc_statistics()
        fitter.fit_data()
        nres = len(seeds)
    ctx.step(2)
    ctx.equal('lengths', np.array(fitter.cliff_lengths), np.array(lengths))
    ctx.equal('results', [len(x) for x in fitter.results], [nres, nres])
    for i, exps in enumerate(sets):
        ctx.check('seeds', sorted(fitter.seeds[i]) == sorted(seeds), fitter.seeds)
        want = expected_raw(pattern, exps, fitter.seeds[i], nlen)
        ctx.close('raw-two', np.array(fitter.raw_data[i]), np.array(want), 1e-10)
        check_stats(ctx, fitter.ydata[i], want, 'stats %d' % i)
        check_fit(ctx, pattern, lengths, fitter.ydata[i], fitter.fit[i])
    checker(ctx, pattern, fitter)
    # refitting one data set with another guess changes neither
    fitter.fit_data_pattern(0, (0.9, 0.8, 0.3), 1)
    fitter.fit_data_pattern(0, (0.9, 0.8, 0.3), 0)
    for i in (0, 1):
        check_fit(ctx, pattern, lengths, fitter.ydata[i], fitter.fit[i])
    ctx.outcome(fitter.fit)


def run_bounds(case, ctx):
    """Interleaved bounds at extreme decays, with exactly exponential data."""
    _, nq, alpha, alpha_c = case
    pattern = [list(range(nq))]
    lens = [1, 3, 6, 12, 25, 60, 200, 1000]
    results = []
    for name, decay in (('rb', alpha), ('rb_interleaved', alpha_c)):
        results.append(result_of(pattern, [
            ('%s_length_%d_seed_0' % (name, k),
             experiment(pattern, [0.6 * decay ** m + 0.3], 10 ** 9, salt=k))
            for k, m in enumerate(lens)]))
    fitter = InterleavedRBFitter(results[0], results[1], [lens], pattern)
    ctx.step()
    check_interleaved(ctx, pattern, fitter)
    ctx.close('bounds-alpha', fitter.fit_int[0]['alpha'], alpha, 1e-3)
    ctx.close('bounds-alpha_c', fitter.fit_int[0]['alpha_c'], alpha_c, 1e-3)
    ctx.outcome(fitter.fit_int[0]['systematic_err'])


def run_flat(case, ctx):
    """Seeds which agree at some of the lengths (no spread there)."""
    _, pattern, seeds, mask = case
    nlen = 5
    lengths = lengths_for(pattern, nlen)
    exps = all_experiments('std', pattern, seeds, nlen)
    for k in range(nlen):
        if mask >> k & 1:
            for seed in seeds:
                exps[seed, k] = ('rb_length_%d_seed_%d' % (k, seed), exps[seeds[0], k][1])
    fitter = RBFitter(result_of(pattern, list(exps.values())), lengths, pattern)
    ctx.step()
    want = expected_raw(pattern, exps, fitter.seeds, nlen)
    ctx.close('raw-flat', np.array(fitter.raw_data), np.array(want), 1e-10)
    for p, rows in enumerate(want):
        ctx.close('mean', fitter.ydata[p]['mean'], np.mean(rows, 0), 1e-9)
        ctx.close('std', fitter.ydata[p]['std'], np.std(rows, 0), 1e-9)
    # rounding may leave a spread of 1e-17, which is no spread
    if all(np.all((s == 0) | (s > 1e-6)) for s in (y['std'] for y in fitter.ydata)):
        check_fit(ctx, pattern, lengths, fitter.ydata, fitter.fit)
    ctx.outcome(mask)


# --------------------------------------------------------------------- purity
def pur_experiments(pattern, seeds, nlen, prefix='rb'):
    """Counts of every purity circuit: dict (seed, basis, k) -> (name, counts)."""
    nq = len(pattern[0])
    exps = {}
    for seed in seeds:
        for b, basis in enumerate(itertools.product('ZXY', repeat=nq)):
            for k in range(nlen):
                surv = [min(0.98, 0.45 / 2 ** (nq - 1) + 0.5 * 0.92 ** (1 + 3 * k)
                            - 0.013 * ((b + seed + 2 * p + k) % 7)) for p in range(len(pattern))]
                exps[seed, ''.join(basis), k] = (
                    '%s_purity_%s_length_%d_seed_%d' % (prefix, ''.join(basis), k, seed),
                    experiment(pattern, surv, 1000 + b, salt=b + k))
    return exps


def purity_of(pattern, p, exps, seed, k):
    """Purity from the averaged Pauli correlators."""
    start = sum(len(g) for g in pattern[:p])
    nq = len(pattern[p])
    total = 0.0
    for pauli in itertools.product('IXYZ', repeat=nq):
        vals = []
        for basis in itertools.product('ZXY', repeat=nq):
            if any(q != 'I' and q != b for q, b in zip(pauli, basis)):
                continue
            counts = exps[seed, ''.join(basis), k][1]
            support = [start + i for i, q in enumerate(pauli) if q != 'I']
            val = sum(c * (-1) ** sum(s[-1 - i] == '1' for i in support)
                      for s, c in counts.items())
            vals.append(val / sum(counts.values()))
        total += np.mean(vals) ** 2
    return total / 2 ** nq


def check_purity(ctx, pattern, seeds, nlen, lengths, exps, fitter):
    """Raw purities, statistics and fit relations."""
    ctx.equal('lengths', np.array(fitter.cliff_lengths), np.array(lengths))
    ctx.check('seeds', sorted(fitter.seeds) == sorted(seeds), fitter.seeds)
    want = [[[purity_of(pattern, p, exps, s, k) for k in range(nlen)] for s in fitter.seeds]
            for p in range(len(pattern))]
    ctx.close('purity', np.array(fitter.raw_data), np.array(want), 1e-9)
    check_stats(ctx, fitter.ydata, want, 'purity stats')
    # an independent fit of the same data as plain survival gives alpha**2
    for p, group in enumerate(pattern):
        dim = 2 ** len(group)
        fit = fitter.fit[p]
        apur, aerr = fit['params'][1], fit['params_err'][1]
        sq = np.array(fit['params'], float)
        sq[1] = apur ** 2
        sigma = fitter.ydata[p]['std']
        if sigma is None or np.count_nonzero(sigma) < nlen:
            sigma = np.ones(nlen)

        def cost(q, p=p, sigma=sigma):
            return np.sum(((fun(lengths[p], *q) - fitter.ydata[p]['mean']) / sigma) ** 2)
        best = cost(sq)
        for i in range(3):
            for eps in (1e-3, -1e-3):
                q = sq.copy()
                q[i] = min(1, max(0, q[i] + eps))
                ctx.check('purity-fit', cost(q) >= best - 1e-7 * max(1, best),
                          'cost %g at %s, %g at %s' % (best, sq, cost(q), q))
        ctx.close('pepc', fit['pepc'], (dim - 1) / dim * (1 - apur), 1e-9)
        if np.isfinite(aerr):
            check_either(ctx, 'pepc_err', fit['pepc_err'],
                         [(dim - 1) / dim * aerr, (dim - 1) / dim * aerr / apur])
        if nlen > 3 and np.all(sq > 1e-3) and np.all(sq < 1 - 1e-3):
            x = np.asarray(lengths[p], float)
            jac = np.stack([sq[1] ** x, sq[0] * x * sq[1] ** (x - 1), np.ones(nlen)],
                           1) / np.asarray(sigma)[:, None]
            if np.linalg.cond(jac) < 1e3 and best > 1e-12:
                err = np.sqrt(np.diag(np.linalg.inv(jac.T @ jac) * best / (nlen - 3)))[1]
                ctx.check('pur-alpha_err', any(abs(aerr / e - 1) < 0.05 for e in
                                               (err / (2 * apur), err / (2 * np.sqrt(apur)))),
                          'got %g from %g' % (aerr, err))


def run_purity(case, ctx):
    """Purity RB: patterns, seeds and ways of supplying the results."""
    _, pattern, seeds, nlen, history, prefix = case
    nq = len(pattern[0])
    lengths = [[1 + 3 * k for k in range(nlen)] for _ in pattern]
    exps = pur_experiments(pattern, seeds, nlen, prefix)
    bases = [''.join(reversed(b)) for b in itertools.product('ZXY', repeat=nq)]
    std = [result_of(pattern, [exps[s, b, k] for k in range(nlen)]) for s in seeds for b in bases]
    nres = len(std)
    if history == 'list':
        fitter = PurityRBFitter(std, 3 ** nq, lengths, pattern)
    elif history == 'reversed':
        fitter = PurityRBFitter(std[::-1], 3 ** nq, lengths, pattern)
    elif history == 'one':
        fitter = PurityRBFitter(result_of(pattern, list(exps.values())), 3 ** nq, lengths, pattern)
        nres = 1
    elif history == 'seedwise':
        fitter = PurityRBFitter(std[:3 ** nq], 3 ** nq, lengths, pattern)
        for i in range(1, len(seeds)):
            fitter.add_data(std[i * 3 ** nq:(i + 1) * 3 ** nq])
    elif history == 'single':
        keys = list(exps)
        keys = keys[1::2] + keys[0::2]
        fitter = PurityRBFitter(None, 3 ** nq, lengths, pattern)
        for i, key in enumerate(keys):
            fitter.add_data(result_of(pattern, [exps[key]]), i == len(keys) - 1)
        nres = len(keys)
    elif history == 'default':
        fitter = PurityRBFitter(std, 3, lengths)
    ctx.step()
    ctx.check('results', len(fitter.results) == nres, len(fitter.results))
    check_purity(ctx, pattern, seeds, nlen, lengths, exps, fitter)
    ctx.outcome(fitter.raw_data)


def run_pursplit(case, ctx):
    """Purity RB of one qubit, every ordered split of the experiments."""
    _, parts = case
    pattern, nlen = [[0]], 2
    lengths = [[1, 4]]
    exps = pur_experiments(pattern, [4], nlen)
    fitter = PurityRBFitter(None, 3, lengths, pattern)
    for i, part in enumerate(parts):
        fitter.add_data(result_of(pattern, [exps[4, b, k] for b, k in part]),
                        i == len(parts) - 1)
    ctx.step(len(parts))
    check_purity(ctx, pattern, [4], nlen, lengths, exps, fitter)
    ctx.outcome(parts)


def run_err(case, ctx):
    """Exact first-order propagation of the uncertainties at low alpha."""
    which = case[1]
    pattern, seeds, nlen = [[0]], [0, 1, 2], 6
    lengths = lengths_for(pattern, nlen)
    if which == 'epc_err':
        exps = all_experiments('std', pattern, seeds, nlen, 0.8)
        fit = RBFitter(result_of(pattern, list(exps.values())), lengths, pattern).fit[0]
        err, alpha = fit['params_err'][1], fit['params'][1]
        got, exact, coded = fit['epc_err'], err / 2, err / 2 / alpha
    elif which in ('alpha_pur_err', 'pepc_err'):
        exps = pur_experiments(pattern, seeds, nlen)
        results = [result_of(pattern, [exps[s, b, k] for k in range(nlen)])
                   for s in seeds for b in 'ZXY']
        pur = PurityRBFitter(results, 3, lengths, pattern)
        fit = dict(pur.fit[0])
        apur, aerr = fit['params'][1], fit['params_err'][1]
        if which == 'pepc_err':
            got, exact, coded = fit['pepc_err'], aerr / 2, aerr / 2 / apur
        else:
            pur.fit_data_pattern(0, (0.9, 0.9, 0.5))
            err = pur.fit[0]['params_err'][1]
            got, exact, coded = aerr, err / (2 * apur), err / (2 * np.sqrt(apur))
    else:
        sets = [all_experiments(kind, pattern, seeds, nlen, a) for kind, a in
                (('Z', 0.8), ('X', 0.85))]
        dih = CNOTDihedralRBFitter(*[result_of(pattern, list(e.values())) for e in sets],
                                   lengths, pattern)
        fit = dih.fit_cnotdihedral[0]
        az, ar = [dih.fit[i][0]['params'][1] for i in (0, 1)]
        ez, er = [dih.fit[i][0]['params_err'][1] for i in (0, 1)]
        if which == 'dih_alpha_err':
            got, exact, coded = (fit['alpha_err'], np.hypot(ez, 2 * er) / 3,
                                 np.hypot(ez / az, 2 * er / ar) / 3)
        else:
            got, exact, coded = (fit['epg_est_err'], fit['alpha_err'] / 2,
                                 fit['alpha_err'] / 2 / fit['alpha'])
    ctx.step()
    tol = 1e-3
    if relclose(got, exact, tol):
        return
    if relclose(got, coded, tol):
        ctx.fail('relative-error-formula', '%s: got %g, first-order propagation gives %g'
                 % (which, got, exact))
    ctx.fail('propagated-error', '%s: got %g, first-order propagation gives %g'
             % (which, got, exact))


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for which in ('epc_err', 'alpha_pur_err', 'pepc_err', 'dih_alpha_err', 'epg_est_err'):
        yield ['err', which]
    for pattern in PATTERNS:
        for seeds in ([0], [0, 1], [1, 0], [5, 2, 11]):
            for nlen in (3, 6):
                for one in (False, True):
                    yield ['agg', pattern, seeds, nlen, one]
    for pattern in ([[0]], [[11], [2, 10]], [[5], [4], [3], [2], [1], [0]]):
        for seeds in (list(range(12)), [100, 12, 1, 10, 2, 0, 11]):
            for one in (False, True):
                yield ['agg', pattern, seeds, 12, one]
    keys = [(s, k) for s in (0, 1) for k in range(3)]
    for pattern in ([[0]], [[1], [0, 2]]):
        for parts in qsim.ordered_partitions(keys, 3 if full else 2):
            for as_list in (False, True):
                yield ['split', pattern, [0, 1], parts, as_list]
    for pattern in ([[0, 1]], [[0, 2], [1]]):
        for masks in range(64):
            yield ['shots', pattern, masks]
    amps = np.linspace(0.2, 0.75, 8 if full else 5)
    alphas = [0.5, 0.7, 0.85, 0.93, 0.97, 0.99, 0.998] + ([0.3, 0.6, 0.8, 0.9, 0.995]
                                                         if full else [])
    for nq in (1, 2, 3):
        for lens in ([1, 3, 5, 9, 17, 33], [1, 11, 21, 31, 61, 91, 141],
                     [1, 50, 150, 300, 600]):
            for ampl in amps:
                for alpha in alphas:
                    if alpha ** lens[1] < 0.02:   # decayed before the second point
                        continue
                    for base in np.linspace(0.1, 0.45, 8 if full else 5):
                        if ampl + base > 1:
                            continue
                        for spread in (False, True):
                            if ampl * alpha ** lens[0] + base > 0.995 and spread:
                                continue
                            yield ['decay', nq, round(float(ampl), 4), alpha,
                                   round(float(base), 4), lens, spread]
    vals = [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0]
    for nq in (1, 2):
        for y0 in vals:
            for y1 in vals:
                for lens in ([1, 2, 5, 9], [5, 6, 9, 14]):
                    yield ['guess', nq, y0, y1, lens]
    for which in ('interleaved', 'dihedral'):
        for pattern in [None] + PATTERNS:
            for seeds in ([0], [3, 1]):
                for history in ('ctor', 'single', 'add', 'late') + (('sides',) if seeds[1:] else ()):
                    yield ['two', which, pattern, seeds, [0.93, 0.88], history]
        for history in ('ctor', 'single', 'add', 'late'):
            yield ['two', which, [[10], [2, 11]], [10, 1, 11, 0, 100], [0.93, 0.88], history, 11]
        grid = [0.99, 0.97, 0.94, 0.9, 0.85, 0.8, 0.7]
        for alphas2 in itertools.product(grid, repeat=2):
            for pattern in ([[0]], [[1, 0], [2]]):
                yield ['two', which, pattern, [0, 1], list(alphas2), 'ctor']
    for pattern in [[[0]], [[1]], [[0], [2]], [[2], [0], [1]], [[0, 1]], [[1, 0]], [[0, 1], [2, 3]],
                    [[0, 2], [3, 1]]] + ([[[0, 1, 2]]] if full else []):
        for seeds in ([0], [2, 0], [0, 1, 2]):
            for nlen in (3, 5):
                for history in ('list', 'reversed', 'one', 'seedwise', 'single'):
                    yield ['purity', pattern, seeds, nlen, history, 'rb']
    for history in ('list', 'one'):
        yield ['purity', [[2, 0, 1]], [1, 0], 3, history, 'rb']
    for nq in (1, 2, 3):
        for alpha, alpha_c in itertools.product((0.9999, 0.9995, 0.999, 0.99), (0.99, 0.9, 0.7, 0.5)):
            yield ['bounds', nq, alpha, alpha_c]
    for pattern in ([[0]], [[1], [0, 2]]):
        for seeds in ([0, 1], [3, 0, 1]):
            for mask in range(32):
                yield ['flat', pattern, seeds, mask]
    for pattern in ([[11], [10]], [[10, 2]]):
        for history in ('list', 'reversed', 'one', 'seedwise', 'single'):
            yield ['purity', pattern, [10, 1, 0, 11], 11, history, 'rb']
    for seeds in ([0], [1, 0]):
        yield ['purity', [[0]], seeds, 4, 'default', 'rb']
        yield ['purity', [[0, 1]], seeds, 4, 'list', 'rb_cnotdihedral']
    keys = [(b, k) for b in 'ZXY' for k in range(2)]
    for parts in qsim.ordered_partitions(keys, 3 if full else 2):
        yield ['pursplit', parts]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
