"""C19: repetition code decoding."""
import itertools

import networkx as nx
from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder

from vlib import qsim, repcode
from checks.c20 import make

ID = 'C19'
BOUNDS = {
    'quick': 'codes (d,T) with d in 2..5, T in 0..3, d=3 with T up to 4 and (7,0): graph equals '
             'the one of all single faults; every set of <= (d-1)/2 distinct fault effects '
             '(all X before any instruction and readout flips) for both logical values; every '
             'flip pattern of the code qubits before every round is decoded by majority; scaled '
             'and learnt weights; all patterns of light and heavy edges of (3,1) and 20+ patterns '
             'of (3,2) and (5,1) against brute-force pairings; logical probabilities of all tables over 4 strings and counts '
             '{0,1,3}; single faults of (11,1) and (3,11), pairs of (12,0) and (9,1)',
    'thorough': '(5,4), (6,2), (7,2), (4,4), (3,7) in addition',
}
ASSUMPTIONS = ['errors act independently of the encoded value; ancillas are reset in every round '
               'but the last', 'networkx matchings and shortest paths are correct']
CASE_TIMEOUT = 600

_DEC = {}


def decoder(d, rounds, how):
    """Decoder of a code (built once per process)."""
    key = (d, rounds, how)
    if key not in _DEC:
        code = make(d, rounds, how)
        _DEC[key] = (code, GraphDecoder(code))
    return _DEC[key]


def effects(code, rounds):
    """Distinct processed strings of all single faults, with one fault each."""
    circ = code.circuit['0']
    prog = repcode.program(circ)
    xs, ms = repcode.locations(circ)
    out = {}
    for x in xs:
        out.setdefault(repcode.processed(repcode.raw(circ, [x], (), prog), code.d, rounds), x)
    for m in ms:
        out.setdefault(repcode.processed(repcode.raw(circ, [], {m}, prog), code.d, rounds), m)
    zero = '0 0  ' + ' '.join(['0' * (code.d - 1)] * (rounds + 1))
    out.pop(zero, None)
    return zero, out


def run_graph(case, ctx):
    """The graph is that of the single faults."""
    _, d, rounds, how = case
    code, dec = decoder(d, rounds, how)
    _, eff = effects(code, rounds)
    edges = {frozenset(repcode.nodes(s)) for s in eff}
    want_nodes = {(0, 0, 0), (0, 1, 0)} | {(1, t, e) for t in range(rounds + 1)
                                           for e in range(d - 1)}
    ctx.step(len(eff))
    ctx.equal('nodes', sorted(dec.S.nodes), sorted(want_nodes))
    ctx.equal('edges', sorted(sorted(e) for e in map(frozenset, dec.S.edges)),
              sorted(sorted(e) for e in edges))
    weights = {dec.S.get_edge_data(*e)['distance'] for e in dec.S.edges}
    ctx.equal('distance', len(weights), 1)
    other = GraphDecoder(code, S=dec.S)
    ctx.check('given-graph', other.S is dec.S, 'a given graph is not used')
    ctx.outcome(d, rounds, len(edges))


def combos(eff, maxw):
    """All sets of at most maxw effects."""
    for w in range(maxw + 1):
        for combo in itertools.combinations(eff, w):
            yield combo


def run_decode(case, ctx):
    """Every correctable fault pattern is decoded to the encoded value."""
    _, d, rounds, how, log, maxw, chunk, nchunks = case
    code, dec = decoder(d, rounds, how)
    zero, eff = effects(code, rounds)
    done = set()
    circ = code.circuit[log]
    for i, combo in enumerate(combos(sorted(eff), maxw)):
        if i % nchunks != chunk:
            continue
        string = repcode.combine([zero] + list(combo), log)
        if i % 97 == 0:
            # the combined effect is that of the faults in the circuit
            # (the circuit of 1 starts with additional gates)
            shift = len(circ.data) - len(code.circuit['0'].data)
            places = [(eff[c][0] + shift, eff[c][1]) if isinstance(eff[c], tuple)
                      else eff[c] + shift for c in combo]
            raw = repcode.raw(circ, [p for p in places if isinstance(p, tuple)],
                              {p for p in places if not isinstance(p, tuple)})
            ctx.equal('combined', list(code.process_results({log: {raw: 1}})[log]), [string])
        if string in done:
            continue
        done.add(string)
        ctx.step()
        ctx.state(d, rounds, how, string)
        got = dec.matching(string)
        ctx.equal('decoded', got, '%s %s' % (log, log))
    table = {s: 1 + i % 3 for i, s in enumerate(sorted(done)[:40])}
    if table:
        ctx.equal('no-logical-error', dec.get_logical_prob({log: table}), {log: 0.0})
    ctx.outcome(d, rounds, len(done))


def run_majority(case, ctx):
    """Flips of the code qubits before one round are decoded by majority."""
    _, d, rounds, t = case
    code, dec = decoder(d, rounds, 'auto')
    tables, wrong, shots = {'0': {}, '1': {}}, {'0': 0, '1': 0}, {'0': 0, '1': 0}
    for pattern in itertools.product((0, 1), repeat=d):
        if 2 * sum(pattern) == d:
            continue
        flip = 2 * sum(pattern) > d
        for log in '01':
            bit = int(log)
            bits = ''.join(str(bit ^ p) for p in pattern)
            syn = ''.join('0' if bits[j] == bits[j + 1] else '1' for j in range(d - 1))
            raw = ' '.join([bits] + [syn if r >= t else '0' * (d - 1)
                                     for r in range(rounds - 1, -1, -1)])
            string = repcode.processed(raw, d, rounds)
            want = str(bit ^ flip)
            ctx.step()
            ctx.state(d, rounds, t, raw)
            ctx.equal('majority', dec.matching(string), want + ' ' + want)
            num = 1 + sum(pattern)
            tables[log][string] = num
            shots[log] += num
            wrong[log] += num * flip
    got = dec.get_logical_prob(tables)
    for log in '01':
        ctx.close('logical-prob', got[log], wrong[log] / shots[log], 1e-12, 'logical probability')
    ctx.outcome(d, rounds, t)


def run_scaled(case, ctx):
    """Decoding does not depend on the scale of the distances."""
    _, d, rounds, factor, maxw = case
    code, dec = decoder(d, rounds, 'auto')
    zero, eff = effects(code, rounds)
    graph = nx.Graph()
    for a, b in dec.S.edges:
        graph.add_edge(a, b, distance=factor)
    scaled = GraphDecoder(code, S=graph)
    for combo in combos(sorted(eff), maxw):
        for log in '01':
            string = repcode.combine([zero] + list(combo), log)
            ctx.step()
            ctx.equal('scaled', scaled.matching(string), '%s %s' % (log, log))
        ctx.state(factor, combo)


def run_learnt(case, ctx):
    """Decoding with weights learnt from a table of single faults."""
    _, d, rounds, base, count, skip, maxw = case
    code, first = decoder(d, rounds, 'auto')
    dec = GraphDecoder(code, S=first.S.copy())
    zero, eff = effects(code, rounds)
    eff = sorted(eff)
    table = {zero: base}
    for i, s in enumerate(eff):
        if skip is None or i % skip:
            table[s] = count
    dec.weight_syndrome_graph({'0': table, '1': {}})
    weights = [dec.S.get_edge_data(*e)['distance'] for e in dec.S.edges]
    ctx.check('edges-kept', dec.S.number_of_edges() == first.S.number_of_edges(), 'edges lost')
    ctx.check('finite', all(0 <= w < 1e3 for w in weights), weights)
    # any two solutions of k and d-k edges are told apart if the weights are close
    apart = d * min(weights) > (d - 1) * max(weights) * 1.0001
    dist = {a: nx.single_source_dijkstra_path_length(dec.S, a, weight='distance') for a in dec.S}
    for combo in combos(eff, maxw):
        for log in '01':
            string = repcode.combine([zero] + list(combo), log)
            ctx.step()
            got = dec.matching(string)
            best = lightest(dist, [n for n in repcode.nodes(string) if n[0]])
            low = min(best.values())
            ends = [p for p, w in best.items() if w < low + 1e-6]
            if len(ends) == 1:
                read = [int(string[0]), int(string[2])]
                ctx.equal('learnt-least', got, '%d %d' % (read[0] ^ ends[0][0],
                                                          read[1] ^ ends[0][1]))
            ctx.check('valid', got in ('0 0', '1 1', '0 1', '1 0'), got)
            if apart or len(combo) == 0:
                ctx.equal('learnt', got, '%s %s' % (log, log))
        ctx.state(base, count, combo)
    ctx.outcome(apart)


def lightest(dist, lit):
    """Least total weight of pairing the lit elements among themselves and with the two logical
    readouts, per parity of the pairs with either readout."""
    best = {}

    def pair(rest, total, parity):
        if not rest:
            best[parity] = min(best.get(parity, float('inf')), total)
            return
        first, rest = rest[0], rest[1:]
        for side in (0, 1):
            flip = (parity[0] ^ (side == 0), parity[1] ^ (side == 1))
            pair(rest, total + dist[first][(0, side, 0)], flip)
        for i, other in enumerate(rest):
            pair(rest[:i] + rest[i + 1:], total + dist[first][other], parity)
    pair(list(lit), 0., (False, False))
    return best


def run_weighted(case, ctx):
    """With any weights, a matching of least weight decides."""
    _, d, rounds, light, heavy, chunk, nchunk = case
    code, first = decoder(d, rounds, 'auto')
    edges = sorted(tuple(sorted(e)) for e in first.S.edges)
    if len(edges) <= 12:
        patterns = [p for p in range(2 ** len(edges))]
    else:
        patterns = [sum(1 << i for i in range(len(edges)) if (i * a + b) % m == 0)
                    for a in (1, 3) for m in (2, 3, 5) for b in range(m)]
        patterns += [1 << i for i in range(len(edges))]
    everything = [(1, t, e) for t in range(rounds + 1) for e in range(d - 1)]
    for pattern in patterns[chunk::nchunk]:
        graph = nx.Graph()
        for i, (a, b) in enumerate(edges):
            graph.add_edge(a, b, distance=light if (pattern >> i) & 1 else heavy)
        dec = GraphDecoder(code, S=graph)
        dist = {a: nx.single_source_dijkstra_path_length(graph, a, weight='distance')
                for a in graph}
        if len(everything) <= 4:
            lits = [c for r in range(len(everything) + 1)
                    for c in itertools.combinations(everything, r)]
        else:
            lits = [tuple(n for j, n in enumerate(everything) if (j * k + pattern) % 3 != k % 3)
                    for k in range(4)]
            lits = [c[:6] for c in lits] + [tuple(everything[:3]), tuple(everything[-3:])]
        for lit in lits:
            best = lightest(dist, lit)
            low = min(best.values())
            ends = [p for p, w in best.items() if w < low + 1e-6]
            string = '0 0  ' + ' '.join(''.join('01'[(1, t, e) in lit] for e in range(d - 1))
                                        for t in range(rounds + 1))
            ctx.step()
            if len(ends) == 1:
                ctx.equal('least-weight', dec.matching(string),
                          '%d %d' % (ends[0][0], ends[0][1]))
            if pattern % 16 == 3:
                nodes = [(0, 0, 0), (0, 1, 0)] + list(lit)
                built = dec.make_error_graph(string)['0']
                for a, b in itertools.combinations(nodes, 2):
                    ctx.close('weighted-distance', built[a][b]['weight'], -dist[a][b], 1e-9, 'weight')
        ctx.state(light, heavy, pattern)


def run_weights(case, ctx):
    """The weight of an edge seen only as 00 and 11 is that of the rarer of the two."""
    _, d, rounds, n00, n11 = case
    import math
    code, first = decoder(d, rounds, 'auto')
    zero, eff = effects(code, rounds)
    for s in sorted(eff):
        edge = repcode.nodes(s)
        dec = GraphDecoder(code, S=first.S.copy())
        dec.weight_syndrome_graph({'0': {zero: n00, s: n11}})
        ctx.step()
        got = dec.S.get_edge_data(*edge)['distance']
        ctx.close('weight', got, abs(math.log(n11 / n00)), 1e-9, 'weight of %s' % edge)
        ctx.state(s)


def run_prob(case, ctx):
    """Logical probabilities are ratios of decoded shots."""
    _, d, rounds, first = case
    code, dec = decoder(d, rounds, 'auto')
    zero, eff = effects(code, rounds)
    eff = sorted(eff)
    strings = [zero, repcode.combine([zero], '1'), repcode.combine([zero, eff[0]], '1'),
               repcode.combine([zero, eff[len(eff) // 2]], '0')]
    dec_of = {strings[0]: '0', strings[1]: '1', strings[2]: '1', strings[3]: '0'}
    for vals in itertools.product((0, 1, 3), repeat=3):
        vals = (first,) + vals
        tab = {s: v for s, v in zip(strings, vals) if v}
        if not tab:
            continue
        for logs in (['0'], ['1'], ['0', '1']):
            got = dec.get_logical_prob({log: tab for log in logs})
            ctx.step()
            ctx.equal('logs', sorted(got), logs)
            for log in logs:
                bad = sum(v for s, v in tab.items() if dec_of[s] != log)
                ctx.close('ratio', got[log], bad / sum(tab.values()), 1e-12, 'ratio of %s' % tab)
        ctx.state(tab)


def run_error_graph(case, ctx):
    """The error graph has the lit elements and both logical readouts."""
    _, d, rounds, maxw = case
    code, dec = decoder(d, rounds, 'auto')
    zero, eff = effects(code, rounds)
    for combo in combos(sorted(eff), maxw):
        string = repcode.combine([zero] + list(combo))
        graph = dec.make_error_graph(string)['0']
        ctx.step()
        want = {(0, 0, 0), (0, 1, 0)} | {n for n in repcode.nodes(string) if n[0]}
        ctx.equal('lit', sorted(graph.nodes), sorted(want))
        for a, b in itertools.combinations(sorted(want), 2):
            ctx.check('connected', graph.has_edge(a, b), '%s %s' % (a, b))
            dist = nx.shortest_path_length(dec.S, a, b)
            ctx.close('graph-distance', graph[a][b]['weight'], -dist, 1e-9, 'distance')
        ctx.state(string)


def cases(tier):
    """Enumerate, grouped so that each code is built in few processes."""
    full = tier == 'thorough'
    sizes = [(2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 0), (5, 1),
             (5, 2), (3, 4), (5, 3)]
    if full:
        sizes += [(4, 3), (4, 4), (3, 7), (5, 4), (6, 2), (7, 1), (7, 2)]
    else:
        sizes += [(7, 0)]
    for d, t in sizes:
        yield ['graph', d, t, 'auto']
        for first in (0, 1, 3) if d > 2 else ():
            yield ['prob', d, t, first]
        for r in range(t + 1):
            yield ['majority', d, t, r]
        maxw = (d - 1) // 2
        nch = 1 if maxw < 2 else 4 if maxw < 3 else 16
        for log in '01':
            for c in range(nch):
                yield ['decode', d, t, 'auto', log, maxw, c, nch]
        if d <= 5:
            yield ['error_graph', d, t, 1]
    # large distances and many rounds, with fewer faults
    for d, t, w, m in ((11, 1, 1, 0), (12, 0, 2, 0), (3, 11, 1, 1), (9, 1, 2, 1), (2, 12, 0, 0)):
        yield ['graph', d, t, 'auto']
        for log in '01':
            for c in range(4):
                yield ['decode', d, t, 'auto', log, w, c, 4]
        for r in range(t + 1) if m else ():
            yield ['majority', d, t, r]
    for d, t in ((3, 2), (4, 1)):
        for how in ('hand', 'barrier'):
            yield ['graph', d, t, how]
            for log in '01':
                yield ['decode', d, t, how, log, (d - 1) // 2, 0, 1]
    for d, t in ((3, 1), (3, 2), (5, 1)) + (((5, 2),) if full else ()):
        for factor in (0.25, 0.5, 1.5, 3, 10):
            yield ['scaled', d, t, factor, (d - 1) // 2]
        for base, count, skip in ((2, 1, None), (10, 1, None), (100, 1, None), (1000, 7, None),
                                  (50, 1, 2), (50, 1, 3), (10, 4, 5), (1, 0, None)):
            yield ['learnt', d, t, base, count, skip, (d - 1) // 2]
        for light, heavy in ((1, 2.5), (0.3, 1.7)) + (((1, 10), (0, 1)) if full else ()):
            for c in range(8):
                yield ['weighted', d, t, light, heavy, c, 8]
        for n00, n11 in ((10, 1), (100, 7), (5, 3), (1000, 1), (4, 4), (1, 9), (4, 6)):
            yield ['weights', d, t, n00, n11]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
