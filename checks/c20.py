"""C20: repetition code circuits and the processing of their results."""
import itertools

from qiskit.ignis.verification.topological_codes import (RepetitionCode, lookuptable_decoding,
                                                         postselection_decoding)

from vlib import qsim, repcode

ID = 'C20'
BOUNDS = {
    'quick': 'codes d = 2..7, rounds T = 0..4 (constructor and by hand, with barriers): noiseless '
             'circuits, every single X before every instruction and every single readout flip for '
             'both logical values, every pair for d <= 3, T <= 2, X on each code qubit between rounds, logical X between rounds; '
             'processing of every raw string of (d,T) in {(2,0..4),(3,0..3),(4,0..2),(5,0..1)} '
             'and of tables; all post-selection tables over 4 strings and counts {0,1,3}; all '
             'lookup tables over 2-3 strings, and with counts up to a million; 140-character strings; single faults of (11,1), (12,2), (3,11), (2,12)',
    'thorough': 'd up to 9, T up to 5, every pair of faults for d <= 5, raw strings up to 15 bits',
}
ASSUMPTIONS = ['ancillas are reset in every round but the last, as the constructor does',
               'ratios of zero shots are undefined']


def make(d, rounds, how):
    """A code, by the constructor or by hand."""
    if how == 'auto':
        code = RepetitionCode(d, rounds)
        if rounds == 0:
            code.readout()
        return code
    code = RepetitionCode(d, 0)
    for t in range(rounds):
        code.syndrome_measurement(reset=t < rounds - 1 or how == 'hand',
                                  barrier=how == 'barrier')
    code.readout()
    return code


def one(code, log, string):
    """Processed form of one raw string by the code."""
    out = code.process_results({log: {string: 7}})
    assert list(out) == [log], out
    return out[log]


def run_clean(case, ctx):
    """Noiseless circuits read their logical value."""
    _, d, rounds, how = case
    code = make(d, rounds, how)
    circs = code.get_circuit_list()
    ctx.equal('list', [circs[0] is code.circuit['0'], circs[1] is code.circuit['1'], len(circs)],
              [True, True, 2])
    ctx.equal('rounds', code.T, rounds)
    for log in '01':
        circ = code.circuit[log]
        ctx.equal('size', [len(circ.qubits), len(circ.clbits)],
                  [2 * d - 1, d + rounds * (d - 1)])
        want = ' '.join([log * d] + ['0' * (d - 1)] * rounds)
        ctx.equal('noiseless', repcode.raw(circ), want)
        ctx.step()
        if 2 * d - 1 <= 7 and rounds <= 2:
            got = {s: round(p, 9) for s, p in qsim.dist(circ).items() if p > 1e-9}
            ctx.equal('noiseless-state', got, {want.replace(' ', ''): 1.0})
        ctx.equal('clean', one(code, log, want),
                  {'%s %s  ' % (log, log) + ' '.join(['0' * (d - 1)] * (rounds + 1)): 7})
    ctx.outcome(d, rounds)


def run_fault(case, ctx):
    """Every single fault (or pair) in the circuit."""
    _, d, rounds, how, log, weight = case
    code = make(d, rounds, how)
    circ = code.circuit[log]
    prog = repcode.program(circ)
    xs, ms = repcode.locations(circ)
    places = [('x', x) for x in xs] + [('m', m) for m in ms]
    zero = '%s %s  ' % (log, log) + ' '.join(['0' * (d - 1)] * (rounds + 1))
    table, want = {}, {}
    for combo in itertools.combinations(places, weight):
        faults = [p for k, p in combo if k == 'x']
        flips = {p for k, p in combo if k == 'm'}
        raw = repcode.raw(circ, faults, flips, prog)
        ctx.step()
        ctx.state(d, rounds, how, log, combo)
        exp = repcode.processed(raw, d, rounds)
        if raw not in table:
            table[raw] = 0
        table[raw] += 1
        want[exp] = want.get(exp, 0) + 1
        lit = sum(a != b for a, b in zip(exp, zero))
        ctx.check('lit', lit in (0, 2) if weight == 1 else lit <= 2 * weight and lit % 2 == 0,
                  '%s lights %d elements: %s' % (combo, lit, exp))
        ctx.equal('processed', one(code, log, raw), {exp: 7})
    ctx.equal('table', code.process_results({log: table}), {log: want})
    ctx.outcome(sorted(want))


def run_between(case, ctx):
    """X on a code qubit before round t: the stabiliser differences are known."""
    _, d, rounds, how = case
    for log, t, k in itertools.product('01', range(rounds + 1), range(d)):
        code = RepetitionCode(d, 0)
        for r in range(rounds):
            if r == t:
                code.circuit[log].x(code.code_qubit[k])
            code.syndrome_measurement(reset=r < rounds - 1 or how == 'hand',
                                      barrier=how == 'barrier')
        if t == rounds:
            code.circuit[log].x(code.code_qubit[k])
        code.readout()
        ctx.step()
        ctx.state(d, rounds, how, log, t, k)
        for lg in '01':
            got = one(code, lg, repcode.raw(code.circuit[lg]))
            changes = [['0'] * (d - 1) for _ in range(rounds + 1)]
            ends = [lg, lg]
            if lg == log:
                # element e of a round belongs to the link of code qubits d-2-e and d-1-e
                for e in range(d - 1):
                    if k in (d - 2 - e, d - 1 - e):
                        changes[t][e] = '1'
                flip = '1' if lg == '0' else '0'
                if k == d - 1:
                    ends[0] = flip
                if k == 0:
                    ends[1] = flip
            want = ' '.join(ends) + '  ' + ' '.join(''.join(c) for c in changes)
            ctx.equal('between', got, {want: 7})
    ctx.outcome(d, rounds)


def run_logical(case, ctx):
    """Logical X between rounds flips the logical value only."""
    _, d, rounds, logs, barrier = case
    for t in range(rounds + 1):
        code = RepetitionCode(d, 0)
        for r in range(rounds):
            if r == t:
                code.x(logs, barrier=barrier) if logs else code.x()
            code.syndrome_measurement(barrier=barrier)
        if t == rounds:
            code.x(logs, barrier=barrier) if logs else code.x()
        code.readout()
        ctx.step()
        for lg in '01':
            val = lg
            if not logs or lg in logs:
                val = '1' if lg == '0' else '0'
            want = '%s %s  ' % (val, val) + ' '.join(['0' * (d - 1)] * (rounds + 1))
            ctx.equal('logical', one(code, lg, repcode.raw(code.circuit[lg])), {want: 7})


def run_raw(case, ctx):
    """Every raw string of a code; whole tables conserve shots."""
    _, d, rounds, how = case
    code = make(d, rounds, how)
    strings = []
    for bits in itertools.product('01', repeat=d + rounds * (d - 1)):
        text = ''.join(bits)
        parts = [text[:d]] + [text[d + i * (d - 1):d + (i + 1) * (d - 1)] for i in range(rounds)]
        strings.append(' '.join(parts))
    tables = {'0': {s: 1 + i % 5 for i, s in enumerate(strings)},
              '1': {s: 2 + i % 7 for i, s in enumerate(strings) if i % 3}}
    copy = {k: dict(v) for k, v in tables.items()}
    got = code.process_results(tables)
    ctx.step()
    want = {}
    for log in tables:
        want[log] = {}
        for s, v in tables[log].items():
            exp = repcode.processed(s, d, rounds)
            want[log][exp] = want[log].get(exp, 0) + v
            ctx.state(d, rounds, s, log)
    for log in want:
        ctx.equal('shots', sum(got[log].values()), sum(tables[log].values()))
    ctx.equal('all-strings', got, want)
    ctx.equal('unmodified', tables, copy)
    for s in strings[::7]:
        ctx.equal('alone', code.process_results({'1': {s: 3}}),
                  {'1': {repcode.processed(s, d, rounds): 3}})
    ctx.equal('empty', code.process_results({}), {})


POST = ['0 0  00 00', '1 1  00 00', '0 0  01 10', '1 0  10 00']


def run_post(case, ctx):
    """All post-selection tables."""
    _, logs, first, strings = case
    keys = [(log, s) for log in logs for s in strings]
    for rest in itertools.product((0, 1, 3), repeat=len(keys) - 1):
        vals = (first,) + rest
        tab = {log: {} for log in logs}
        for (log, s), v in zip(keys, vals):
            if v:
                tab[log][s] = v
        good = {log: {s: v for s, v in tab[log].items() if '1' not in s.split('  ', 1)[1]}
                for log in logs}
        if any(not g for g in good.values()):
            continue
        ctx.step()
        ctx.state(tab)
        got = postselection_decoding(tab)
        ctx.equal('keys', sorted(got), sorted(logs))
        for log in logs:
            want = sum(v for s, v in good[log].items() if s[0] != log) / sum(good[log].values())
            ctx.close('postselected', got[log], want, 1e-12, 'postselection %s' % tab)


def run_lookup(case, ctx):
    """All lookup tables."""
    _, strings, logs, first, values = case
    real = [{'0': {strings[0]: 2, strings[1]: 1}, '1': {strings[1]: 4}},
            {'0': {strings[1]: 1}, '1': {strings[0]: 1, strings[-1]: 3}},
            {'0': {strings[-1]: 5, strings[0]: 1}, '1': {s: i + 1 for i, s in enumerate(strings)}},
            {'0': {s: i + 2 for i, s in enumerate(strings)}, '1': {strings[0]: 2}}]
    for vals in itertools.product(values, repeat=2 * len(strings) - 1):
        vals = (first,) + vals
        train = {'0': {s: v for s, v in zip(strings, vals) if v},
                 '1': {s: v for s, v in zip(strings, vals[len(strings):]) if v}}
        tot = {log: sum(train[log].values()) for log in '01'}
        if not all(tot.values()):
            continue
        for table in real:
            table = {log: table[log] for log in logs}
            got = lookuptable_decoding(train, table)
            ctx.step()
            ctx.equal('keys', sorted(got), sorted(logs))
            for log in logs:
                other = '1' if log == '0' else '0'
                wrong = sum(v for s, v in table[log].items()
                            if train[other].get(s, 0) * tot[log] > train[log].get(s, 0) * tot[other])
                ctx.close('lookup', got[log], wrong / sum(table[log].values()), 1e-12,
                          'lookup %s %s' % (train, table))
        ctx.state(train)


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    ds = range(2, 10 if full else 8)
    ts = range(0, 6 if full else 5)
    for d in ds:
        for t in ts:
            for how in ('auto', 'hand', 'barrier'):
                yield ['clean', d, t, how]
                yield ['between', d, t, how]
                for log in '01':
                    yield ['fault', d, t, how, log, 1]
                    if d <= 5 and t <= 3 if full else d <= 3 and t <= 2 and how == 'auto':
                        yield ['fault', d, t, how, log, 2]
            for logs in (['0'], ['1'], ['0', '1'], None):
                for barrier in (False, True):
                    yield ['logical', d, t, logs, barrier]
    for d, t in ((11, 1), (12, 2), (3, 11), (2, 12), (11, 10)):
        for how in ('auto', 'barrier'):
            yield ['clean', d, t, how]
            yield ['between', d, t, how]
            for log in '01':
                if d + t < 20:
                    yield ['fault', d, t, how, log, 1]
        yield ['logical', d, t, ['1'], False]
    for d, tmax in ((2, 4), (3, 4 if full else 3), (4, 3 if full else 2), (5, 2 if full else 1)):
        for t in range(tmax + 1):
            yield ['raw', d, t, 'auto']
            if t:
                yield ['raw', d, t, 'barrier']
    for first in (0, 1, 3):
        yield ['post', ['0', '1'], first, POST]
        yield ['post', ['1'], first, POST]
        yield ['post', ['0'], first, ['0 1  000 000 000', '1 1  000 000 000', '1 0  000 000 001',
                                      '0 0  000 100 000', '0 0  000 000 000']]
        long = ['%d %d  %s' % (a, a, ' '.join(['0' * 11] * 12)) for a in (0, 1)]
        yield ['post', ['0', '1'], first,
               long + [long[0][:-1] + '1', long[1][:79] + '1' + long[1][80:]]]
        for logs in (['0', '1'], ['1'], ['0']):
            yield ['lookup', POST[:2], logs, first + 10000, (1, 10000, 10001, 1000000)]
            yield ['lookup', POST[:2], logs, first, (0, 1, 2, 3, 5)]
            yield ['lookup', POST[1:], logs, first, (0, 1, 2) if not full else (0, 1, 2, 5)]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
