"""C16: quantum volume."""
import itertools
import math
from fractions import Fraction

import numpy as np
from qiskit import QiskitError
from qiskit.result import Result
from qiskit.ignis.verification import quantum_volume as qv

from vlib import qsim

ID = 'C16'
BOUNDS = {
    'quick': 'circuits for every ordered list of 2-4 of qubits 0..3 (and 1-qubit lists), pairs of '
             'lists, seeds 0-3; heavy outputs for every 2-qubit state with probabilities '
             'proportional to {0,1,2,3}^4 and every arrangement of 6 weight multisets for 3 '
             'qubits; every ordered split of 2 depths x 2 trials over <= 3 results, three shot '
             'splits, all state split orders; verdicts for 1-40 trials x 25 heavy fractions; depths '
             '10 and 11, 12 trials, 12-qubit devices',
    'thorough': 'all ordered lists of 2-4 of 5 qubits, splits of 2x3 experiments, verdicts for '
                '1-120 trials x 49 fractions',
}
ASSUMPTIONS = ['trials are numbered from 0 without gaps once statistics are requested',
               'the random unitaries themselves come from qiskit-terra']


def bind(circ):
    """(dict physical qubit per clbit, body circuit)."""
    body, meas = qsim.strip_measure(circ)
    return body, meas


def run_circ(case, ctx):
    """Circuits act on the listed qubits and measure them in order."""
    _, lists, ntrials, seed = case
    circs, nomeas = qv.qv_circuits(lists, ntrials, seed=seed)
    ctx.step()
    ctx.equal('trials', [len(circs), len(nomeas)], [ntrials, ntrials])
    seen = []
    for trial in range(ntrials):
        ctx.equal('depths', [len(circs[trial]), len(nomeas[trial])], [len(lists)] * 2)
        for qubits, circ, ideal in zip(lists, circs[trial], nomeas[trial]):
            depth = len(qubits)
            name = 'qv_depth_%d_trial_%d' % (depth, trial)
            ctx.equal('names', [circ.name, ideal.name], [name, name])
            ctx.check('nomeas', ideal.num_qubits == depth
                      and all(g[0].name != 'measure' for g in ideal.data), 'ideal circuit')
            ctx.check('clbits', circ.num_clbits == depth, circ.num_clbits)
            index = {q: i for i, q in enumerate(circ.qubits)}
            for inst, qargs, _ in circ.data:
                if inst.name != 'barrier':
                    ctx.check('only-listed', all(index[q] in qubits for q in qargs),
                              '%s acts outside %s' % (inst.name, qubits))
            cindex = {c: i for i, c in enumerate(circ.clbits)}
            meas = {cindex[c[0]]: index[q[0]] for inst, q, c in circ.data
                    if inst.name == 'measure'}
            ctx.equal('measured', meas, dict(enumerate(qubits)))
            state = qsim.unitary(ideal)[:, 0]
            probs = np.abs(state) ** 2
            got = qsim.dist(circ)
            want = {format(i, '0%db' % depth): p for i, p in enumerate(probs)}
            for key, val in want.items():
                ctx.close('same-circuit', got.get(key, 0), val, 1e-7, '%s %s' % (qubits, key))
            seen.append(np.round(probs, 6))
    if seed is not None:
        again, again2 = qv.qv_circuits(lists, ntrials, seed=seed)
        for trial in range(ntrials):
            for first, second in zip(circs[trial] + nomeas[trial], again[trial] + again2[trial]):
                ctx.check('seeded', qsim.same_dist(qsim.dist(first), qsim.dist(second))
                          if first.num_clbits else
                          np.allclose(qsim.unitary(first), qsim.unitary(second)),
                          'seed %s does not repeat' % seed)
    ctx.outcome([s.tolist() for s in seen])


def run_seeds(case, ctx):
    """Different seeds, trials and depths give different circuits."""
    seen = set()
    for seed in range(6):
        circs, _ = qv.qv_circuits([[0, 1], [0, 1, 2]], 3, seed=seed)
        ctx.step()
        for trial in circs:
            for circ in trial:
                seen.add(tuple(sorted((k, round(v, 5)) for k, v in qsim.dist(circ).items())))
    # 36 draws, of 1000 inner seeds at present; a few may collide
    ctx.check('variety', len(seen) >= 30, 'only %d different circuits' % len(seen))
    # four trials each: a chance agreement of all of them cannot happen in practice
    a, _ = qv.qv_circuits([[0, 1, 2]], 4)
    b, _ = qv.qv_circuits([[0, 1, 2]], 4)
    ctx.check('unseeded', not all(qsim.same_dist(qsim.dist(x[0]), qsim.dist(y[0]))
                                  for x, y in zip(a, b)), 'unseeded circuits repeat')


def sv_result(items):
    """Result with statevectors [(name, vector)]."""
    return Result.from_dict(dict(
        backend_name='ref', backend_version='0', qobj_id='q', job_id='j', success=True,
        status='COMPLETED',
        results=[dict(shots=1, success=True, status='DONE', header=dict(name=name),
                      data=dict(statevector=np.array(vec, complex))) for name, vec in items]))


def state_of(weights, salt=0):
    """State with probabilities proportional to the weights and exact phases."""
    tot = sum(weights)
    return [math.sqrt(w / tot) * (1, 1j, -1, -1j)[(i + salt) % 4] for i, w in enumerate(weights)]


def heavy_set(weights):
    """Strings strictly above the median, exactly."""
    depth = (len(weights) - 1).bit_length()
    srt = sorted(weights)
    n = len(srt)
    twice = srt[n // 2 - 1] + srt[n // 2]
    return {format(i, '0%db' % depth) for i, w in enumerate(weights) if 2 * w > twice}


def run_heavy(case, ctx):
    """Heavy outputs of a state."""
    _, weights = case
    depth = (len(weights) - 1).bit_length()
    name = 'qv_depth_%d_trial_0' % depth
    fit = qv.QVFitter(qubit_lists=[list(range(depth))],
                      statevector_result=sv_result([(name, state_of(weights))]))
    ctx.step()
    want = heavy_set(weights)
    got = fit.heavy_outputs[name]
    ctx.equal('heavy', [sorted(got), len(got)], [sorted(want), len(want)])
    tot = sum(weights)
    ctx.close('heavy-prob', fit.heavy_output_prob_ideal[name],
              sum(weights[int(s, 2)] for s in want) / tot, 1e-9)
    ctx.outcome(sorted(want))


DEPTHS = [[2, 0], [1, 2, 3]]
WEIGHTS = {(2, 0): [5, 1, 3, 2], (2, 1): [1, 1, 4, 6], (2, 2): [7, 2, 2, 9],
           (3, 0): [1, 8, 2, 7, 3, 6, 5, 4], (3, 1): [9, 1, 9, 1, 4, 4, 2, 3],
           (3, 2): [2, 3, 5, 7, 11, 13, 17, 1]}
for _d in (1, 2, 3, 10, 11):
    for _t in range(13):
        WEIGHTS.setdefault((_d, _t), [1 + (i * i * 7 + i * (3 + _t) + 5 * _t) % (11 + _d)
                                      for i in range(2 ** _d)])


def exp_counts(depth, trial, part=0):
    """Deterministic counts."""
    return {format(i, '0%db' % depth): 3 + (i * 7 + trial * 5 + part * 3 + depth) % 11
            for i in range(2 ** depth) if (i + trial + part) % 5}


def expected(keys, data):
    """(heavy counts, shots) of pooled data."""
    out = {}
    for key in keys:
        heavy = heavy_set(WEIGHTS[key])
        pooled = {}
        for counts in data[key]:
            for s, c in counts.items():
                pooled[s] = pooled.get(s, 0) + c
        out[key] = (sum(c for s, c in pooled.items() if s in heavy), sum(pooled.values()))
    return out


def check_ydata(ctx, fit, depths, ntrials, pooled):
    """ydata, verdicts and the rest of the public values."""
    for i, depth in enumerate(depths):
        for t in range(ntrials):
            ctx.close('heavy-counts', fit.heavy_output_counts['qv_depth_%d_trial_%d' % (depth, t)],
                      pooled[depth, t][0], 1e-9)
        mean = (sum(pooled[depth, t][0] for t in range(ntrials))
                / sum(pooled[depth, t][1] for t in range(ntrials)))
        ideal = np.mean([sum(WEIGHTS[depth, t][int(s, 2)] for s in heavy_set(WEIGHTS[depth, t]))
                         / sum(WEIGHTS[depth, t]) for t in range(ntrials)])
        ctx.close('ydata', np.array(fit.ydata)[:, i],
                  [mean, math.sqrt(mean * (1 - mean) / ntrials), ideal,
                   math.sqrt(ideal * (1 - ideal) / ntrials)], 1e-9, 'depth %d' % depth)
    ctx.equal('depth-list', fit.depths, depths)
    ctx.equal('volume', list(fit.quantum_volume()), [2 ** d for d in depths])
    verdict = fit.qv_success()
    ctx.check('verdicts', len(verdict) == len(depths), verdict)
    for i, depth in enumerate(depths):
        mean, sigma = fit.ydata[0][i], fit.ydata[1][i]
        z = (mean - 2 / 3) / max(sigma, 1e-10)
        conf = 0.5 * (1 + math.erf(z / math.sqrt(2)))
        ctx.close('confidence', verdict[i][1], conf, 1e-9)
        ctx.check('success', bool(verdict[i][0]) == (mean > 2 / 3 and z > 2), verdict[i])


def run_hist(case, ctx):
    """Every split of the experiments over results."""
    _, ntrials, parts, rerun, svparts = case
    depths = [2, 3]
    keys = [(d, t) for t in range(ntrials) for d in depths]
    fit = qv.QVFitter(qubit_lists=DEPTHS)
    for part in svparts:
        fit.add_statevectors([sv_result([('qv_depth_%d_trial_%d' % tuple(k),
                                          state_of(WEIGHTS[tuple(k)], k[1])) for k in part])])
    data = {k: [exp_counts(*k)] for k in keys}
    results = [qsim.make_result([('qv_depth_%d_trial_%d' % tuple(k), data[tuple(k)][0],
                                  dict(width=k[0])) for k in part]) for part in parts]
    if rerun == 'list':
        fit.add_data(results)
    else:
        for i, res in enumerate(results):
            fit.add_data(res, rerun_fit=(i == len(results) - 1))
    ctx.step(len(parts) + len(svparts))
    ctx.check('results', len(fit.results) == len(results), len(fit.results))
    check_ydata(ctx, fit, depths, ntrials, expected(keys, data))
    # further shots are pooled, and recalculating changes nothing
    key = keys[-1]
    data[key].append(exp_counts(key[0], key[1], 4))
    fit.add_data(qsim.make_result([('qv_depth_%d_trial_%d' % key, data[key][1],
                                    dict(width=key[0]))]))
    check_ydata(ctx, fit, depths, ntrials, expected(keys, data))
    fit.calc_data()
    fit.calc_statistics()
    check_ydata(ctx, fit, depths, ntrials, expected(keys, data))
    # so are shots which happen to give the same counts
    data[key].append(dict(data[key][0]))
    fit.add_data(qsim.make_result([('qv_depth_%d_trial_%d' % key, data[key][2],
                                    dict(width=key[0]))]))
    check_ydata(ctx, fit, depths, ntrials, expected(keys, data))
    ctx.outcome(np.array(fit.ydata))


def run_trialwise(case, ctx):
    """Trials added one by one, statistics after each."""
    _, nmax, shotsplit = case
    depths = [2, 3]
    fit = qv.QVFitter(qubit_lists=DEPTHS)
    data = {}
    for t in range(nmax):
        fit.add_statevectors(sv_result([('qv_depth_%d_trial_%d' % (d, t),
                                         state_of(WEIGHTS[d, t])) for d in depths]))
        for part in range(shotsplit):
            for d in depths:
                data.setdefault((d, t), []).append(exp_counts(d, t, part))
            fit.add_data(qsim.make_result([('qv_depth_%d_trial_%d' % (d, t), data[d, t][-1],
                                            dict(width=d)) for d in depths]))
            ctx.step()
            check_ydata(ctx, fit, depths, t + 1, expected(list(data), data))
    ctx.outcome(np.array(fit.ydata))


def run_wide(case, ctx):
    """Depths and trial numbers with two digits."""
    _, depths, ntrials, mode = case
    keys = [(d, t) for t in range(ntrials) for d in depths]
    data = {k: [exp_counts(*k)] for k in keys}
    lists = [list(range(d)) for d in depths]

    def res(part):
        return qsim.make_result([('qv_depth_%d_trial_%d' % k, data[k][0], dict(width=k[0]))
                                 for k in part])

    def ideal(part):
        return sv_result([('qv_depth_%d_trial_%d' % k, state_of(WEIGHTS[k], k[1])) for k in part])
    if mode == 'one':
        fit = qv.QVFitter(res(keys), ideal(keys), lists)
    elif mode == 'reversed':
        fit = qv.QVFitter(res(keys[::-1]), ideal(keys[::-1]), lists)
    elif mode == 'trials':
        per = [[k for k in keys if k[1] == t] for t in range(ntrials)]
        fit = qv.QVFitter([res(p) for p in per], [ideal(p) for p in per[::-1]], lists)
    else:
        fit = qv.QVFitter(qubit_lists=lists)
        for k in keys:
            fit.add_statevectors(ideal([k]))
        for k in keys:
            fit.add_data(res([k]), rerun_fit=k == keys[-1])
    ctx.step(2)
    check_ydata(ctx, fit, depths, ntrials, expected(keys, data))
    ctx.outcome(np.array(fit.ydata))


def run_reject(case, ctx):
    """Rejected additions leave the fitter as it was."""
    _, bad = case
    depths = [2, 3]
    names = ['qv_depth_%d_trial_%d' % (d, 0) for d in depths]
    ideal = sv_result([(n, state_of(WEIGHTS[d, 0])) for n, d in zip(names, depths)])
    data = {(d, 0): [exp_counts(d, 0)] for d in depths}
    good = qsim.make_result([(n, data[d, 0][0], dict(width=d)) for n, d in zip(names, depths)])
    fit = qv.QVFitter(qubit_lists=DEPTHS)
    if bad == 'early':
        ctx.raises('no-ideal', QiskitError, lambda: fit.add_data(good), 'data without ideal')
        fit.add_statevectors(ideal)
        fit.add_data(good)
    elif bad == 'other':
        fit.add_statevectors(ideal)
        other = qsim.make_result([(names[0], {'00': 50}, dict(width=2)),
                                  ('qv_depth_2_trial_1', {'00': 50}, dict(width=2))])
        ctx.raises('no-ideal', QiskitError, lambda: fit.add_data([good, other]), 'partly unknown')
        fit.add_data(good)
    elif bad == 'twice':
        fit.add_statevectors(ideal)
        ctx.raises('twice', QiskitError, lambda: fit.add_statevectors(ideal), 'ideal twice')
        fit.add_data(good)
    elif bad == 'none':
        fit.add_statevectors(None)
        fit.add_data(None)
        fit = qv.QVFitter(good, ideal, DEPTHS)
    ctx.step(2)
    check_ydata(ctx, fit, depths, 1, expected(list(data), data))


def run_verdict(case, ctx):
    """Success exactly above two thirds with two sigma."""
    _, ntrials, shots, heavies = case
    weights = [5, 1, 3, 2]
    heavy = sorted(heavy_set(weights))
    light = [s for s in qsim.bitstrings(2) if s not in heavy]
    names = ['qv_depth_2_trial_%d' % t for t in range(ntrials)]
    fit = qv.QVFitter(qubit_lists=[[0, 1]])
    fit.add_statevectors([sv_result([(n, state_of(weights)) for n in names])])
    exps = []
    total = 0
    for t, name in enumerate(names):
        num = heavies[t % len(heavies)]
        total += num
        counts = {heavy[t % 2]: num, light[t % 2]: shots - num}
        exps.append((name, {k: v for k, v in counts.items() if v}, dict(width=2)))
    fit.add_data(qsim.make_result(exps))
    ctx.step()
    mean = Fraction(total, ntrials * shots)
    ctx.close('mean', fit.ydata[0][0], float(mean), 1e-9)
    var = mean * (1 - mean) / ntrials
    ctx.close('sigma', fit.ydata[1][0], math.sqrt(float(var)), 1e-9)
    # exact comparison: mean - 2/3 > 2 sigma
    diff = mean - Fraction(2, 3)
    success = diff > 0 and diff ** 2 > 4 * var
    got = fit.qv_success()[0]
    # a two-sigma tie is a matter of rounding
    if diff <= 0 or abs(float(diff ** 2 - 4 * var)) > 1e-9:
        ctx.check('success', bool(got[0]) == success,
                  'mean %s of %d trials: %s' % (mean, ntrials, got))
    if var > 0:
        z = float(diff) / math.sqrt(float(var))
        ctx.close('confidence', got[1], 0.5 * (1 + math.erf(z / math.sqrt(2))), 1e-9)
    else:
        ctx.close('confidence', got[1], 1.0 if diff > 0 else 0.0, 1e-9)
    ctx.outcome(success, got[1])


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for bad in ('early', 'other', 'twice', 'none'):
        yield ['reject', bad]
    yield ['seeds']
    for n in range(4):
        yield ['circ', [[n]], 1, 1]
    for qubits in qsim.ordered_subsets(range(5 if full else 4), (2, 3, 4)):
        for seed in (0, 3):
            yield ['circ', [list(qubits)], 1, seed]
    for a in qsim.ordered_subsets(range(3), (2,)):
        for b in qsim.ordered_subsets(range(4), (3,)):
            for seed in (None, 0, 1, 2):
                yield ['circ', [list(a), list(b)], 2, seed]
    for weights in itertools.product(range(4), repeat=4):
        if any(weights):
            yield ['heavy', list(weights)]
    for weights in ((1, 0), (0, 1), (1, 1), (2, 1)):
        yield ['heavy', list(weights)]
    for multiset in ([1, 1, 1, 1, 2, 2, 2, 2], [0, 0, 0, 0, 0, 1, 1, 1], [1, 1, 1, 2, 2, 3, 3, 3],
                     [1, 2, 2, 2, 2, 2, 2, 3], [0, 0, 0, 0, 0, 0, 0, 1], [1, 1, 1, 1, 1, 1, 1, 1]):
        for weights in sorted(set(itertools.permutations(multiset))):
            yield ['heavy', list(weights)]
    ntr = 3 if full else 2
    keys = [(d, t) for t in range(ntr) for d in (2, 3)]
    sv_all = list(qsim.ordered_partitions(keys, 2))
    sv_all = sv_all if len(sv_all) < 20 else sv_all[::7]
    for parts in qsim.ordered_partitions(keys, 3):
        for rerun in ('list', 'last'):
            for sv in sv_all[::3] if not full else sv_all[:2]:
                yield ['hist', ntr, parts, rerun, sv]
    for nmax in (1, 2, 3):
        for shotsplit in (1, 2, 3):
            yield ['trialwise', nmax, shotsplit]
    for depths in ([1, 10], [11, 1, 2], [2, 3], [10, 11]):
        for ntrials in (1, 12):
            for mode in ('one', 'reversed', 'trials', 'single'):
                yield ['wide', depths, ntrials, mode]
    for lists in ([[10, 2]], [[11, 3, 10], [1, 10]], [[5, 0, 3, 1, 4]], [[0, 1, 2, 3, 4, 5]]):
        yield ['circ', lists, 1, 2]
    yield ['circ', [[0, 1]], 12, 2]
    step = 48 if full else 24
    for ntrials in range(1, 121 if full else 41):
        for num in range(step + 1):
            yield ['verdict', ntrials, step, [num]]
        for num in range(1, step):
            yield ['verdict', ntrials, step, [num - 1, num + 1, num]]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
