"""C07: counts utilities."""
import itertools

from qiskit.ignis.verification.tomography import (marginal_counts, combine_counts,
                                                  expectation_counts, count_keys)
from qiskit.ignis.utils import build_counts_dict_from_list

from vlib import qsim

ID = 'C07'
BOUNDS = {
    'quick': 'all counts dictionaries with values absent/0/1/5 on 1-2 bits, single-outcome, pair '
             'and dense dictionaries (also with values 1..1e6, fractions and negative ones) on 3-5 '
             'bits, sparse ones on 12 bits; every ordered selection '
             'of <=3 bits and every subset; every register split (<=5 bits); padding on/off; all '
             'pairs/triples of small dictionaries for merging',
    'thorough': 'as quick with all 3-bit dictionaries over absent/1/5 and ordered selections of '
                '<=4 of 6 bits',
}
ASSUMPTIONS = ['marginal keys list the kept bits with the highest index leftmost, as documented '
               'for count keys']
VALS = (None, 0, 1, 5)


def dense(n):
    return {format(i, '0%db' % n): (i * i * 3 + 7 * i) % 23 + 1 for i in range(2 ** n)}


def small_dicts(n, vals):
    keys = qsim.bitstrings(n)
    for combo in itertools.product(vals, repeat=len(keys)):
        out = {k: v for k, v in zip(keys, combo) if v is not None}
        if out:
            yield out


def spaced(key, sizes):
    """Split a key into registers; sizes from the right."""
    out, end = [], len(key)
    for s in sizes:
        out.insert(0, key[end - s:end])
        end -= s
    return ' '.join(out)


def cases(tier):
    big = tier == 'thorough'
    for n in (1, 2):
        for cnt in small_dicts(n, VALS):
            yield ['marg', n, cnt]
            yield ['exp', n, cnt]
    if big:
        for cnt in small_dicts(3, (None, 1, 5)):
            yield ['marg', 3, cnt]
            yield ['exp', 3, cnt]
    for n in (3, 4, 5) + ((6,) if big else ()):
        full = dense(n)
        yield ['marg', n, full]
        yield ['exp', n, full]
        keys = qsim.bitstrings(n)
        yield ['marg', n, dict(reversed(list(full.items())))]
        for k in keys:
            yield ['marg', n, {k: 9}]
            yield ['exp', n, {k: 9}]
        for a, b in itertools.combinations(keys[::1 if n == 3 else 3], 2):
            yield ['marg', n, {b: 4, a: 3}]
            yield ['exp', n, {b: 4, a: 3}]
        for vals in ([1, 1000000, 2], [0.25, -0.5, 3], [-4, 1, 1000, 2]):
            cnt = {k: vals[i % len(vals)] for i, k in enumerate(keys)}
            yield ['marg', n, cnt]
            yield ['exp', n, cnt]
            yield ['marg', n, {k: v for k, v in cnt.items() if v != 2}]
    for i in range(4):
        yield ['wide', i]
    pool = [d for d in small_dicts(1, VALS)] + [{'00': 3, '11': 2}, {'01': 4}, dense(2)]
    for a in range(len(pool)):
        for b in range(len(pool)):
            yield ['comb', pool[a], pool[b]]
    for vals in ([1, 1000000], [0.25, -0.5], [-4, 7]):
        yield ['list', [{'01': vals[0], '10': vals[1]}, {'01': 2, '11': vals[1]}, {'10': -1}]]
        yield ['comb', {'01': vals[0], '10': vals[1]}, {'01': 2, '11': vals[1]}]
    for r in (0, 1, 2, 3):
        for combo in itertools.product(pool[:8] + pool[-3:], repeat=r):
            yield ['list', list(combo)]
    for n in range(0 + 1, 9):
        yield ['keys', n]


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def ref_marg(counts, sel):
    """sel: kept bits; highest index leftmost."""
    out = {}
    bits = sorted(sel, reverse=True)
    for key, val in counts.items():
        new = ''.join(key[len(key) - 1 - b] for b in bits)
        out[new] = out.get(new, 0) + val
    return out


def nz(d):
    return {k: v for k, v in d.items() if v != 0}


def compare(ctx, counts, arg, sel, n):
    want = ref_marg(counts, sel)
    for given in [counts] + ([{spaced(k, [len(p) for p in parts]): v for k, v in counts.items()}
                              for parts in qsim.compositions(range(n), n) if len(parts) > 1]
                             if n <= 5 else []):
        save = list(given.items())
        got = marginal_counts(given, arg)
        pad = marginal_counts(given, arg, pad_zeros=True)
        ctx.step(2)
        ctx.equal('input_unmodified', list(given.items()), save)
        ctx.equal('marginal', nz(got), nz(want), (given, arg))
        ctx.equal('shots', sum(got.values()), sum(counts.values()))
        full = {k: want.get(k, 0) for k in qsim.bitstrings(len(sel))}
        ctx.equal('padded', pad, full, (given, arg))
    ctx.outcome(want)


def run_marg(case, ctx):
    _, n, counts = case
    compare(ctx, counts, True, list(range(n)), n)
    for r in range(1, n + 1):
        sels = itertools.permutations(range(n), r) if r <= 2 or n <= 3 or \
            (r <= 3 and len(counts) > 2) or (ctx.tier == 'thorough' and len(counts) > 2 and r <= 4) \
            else itertools.combinations(range(n), r)
        for sel in sels:
            ctx.state(n, counts, sel)
            compare(ctx, counts, list(sel), list(sel), n)
        compare(ctx, counts, range(r), list(range(r)), n)


def run_wide(case, ctx):
    n = 12
    keys = [format((i * 1237 + case[1] * 331) % 4096, '012b') for i in range(9)]
    counts = {}
    for i, k in enumerate(keys):
        counts[k] = counts.get(k, 0) + i + 1
    for r in (1, 2):
        for sel in itertools.permutations(range(n), r):
            compare(ctx, counts, list(sel), list(sel), n)
    for sel in ([0, 5, 11], [11, 10, 1], [2, 3, 4, 9]):
        compare(ctx, counts, sel, sel, n)
    ctx.equal('identity', marginal_counts(counts), counts)


def run_exp(case, ctx):
    _, n, counts = case
    want = {}
    for mask in range(2 ** n):
        want[format(mask, '0%db' % n)] = sum(
            v * (-1) ** bin(int(k, 2) & mask).count('1') for k, v in counts.items())
    save = list(counts.items())
    got = expectation_counts(counts)
    ctx.step()
    ctx.equal('input_unmodified', list(counts.items()), save)
    ctx.equal('expectation', got, want)
    for parts in qsim.compositions(range(n), 3):
        if len(parts) > 1:
            sp = {spaced(k, [len(p) for p in parts]): v for k, v in counts.items()}
            ctx.step()
            ctx.equal('expectation_registers', expectation_counts(sp), want)
    ctx.outcome(want)


def ref_sum(dicts):
    out = {}
    for d in dicts:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def run_comb(case, ctx):
    _, a, b = case
    a, b = dict(a), dict(b)
    sa, sb = dict(a), dict(b)
    got = combine_counts(a, b)
    ctx.step()
    ctx.equal('combine', got, ref_sum([sa, sb]))
    ctx.equal('input_unmodified', [a, b], [sa, sb])
    again = combine_counts(got, b)
    ctx.equal('combine', again, ref_sum([sa, sb, sb]))
    ctx.equal('input_unmodified', got, ref_sum([sa, sb]))
    ctx.equal('self', combine_counts(a, a), ref_sum([sa, sa]))
    ctx.outcome(got)


def run_list(case, ctx):
    dicts = [dict(d) for d in case[1]]
    got = build_counts_dict_from_list(dicts)
    ctx.step()
    ctx.equal('build', got, ref_sum(case[1]))
    ctx.equal('input_unmodified', dicts, case[1])
    ctx.outcome(got)


def run_keys(case, ctx):
    n = case[1]
    ctx.step()
    ctx.equal('count_keys', count_keys(n), qsim.bitstrings(n))
