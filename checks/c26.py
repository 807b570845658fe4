"""C26: entanglement verification (GHZ circuits and their analysis)."""
import contextlib
import io
import itertools
from datetime import datetime
from math import cos, pi, sqrt

import numpy as np
from qiskit import QiskitError
from qiskit.providers.models import QasmBackendConfiguration, GateConfig, BackendProperties
from qiskit.providers.models.backendproperties import Nduv, Gate
from qiskit.test.mock.fake_backend import FakeBackend
from qiskit.ignis.verification import entanglement as ent

from vlib import qsim

ID = 'C26'
BOUNDS = {
    'quick': 'linear circuits for n = 1..6 and 38 phases in [-2pi, 2pi] and beyond, n = 7..10 at 3; all connected '
             'graphs on 2..5 nodes as devices, every n, gate errors ascending / descending / equal or '
             'not used; all directions of the edges for <= 3 nodes and of all trees on 4; every kind '
             'of transpiled circuit, fixed and parametrised, on all connected graphs with <= 4 nodes; '
             'lines of 24 and 60 qubits, grids, stars and rings; parity of all count tables with '
             'total <= 4 on <= 3 bits, sparse tables on 4..12; Fourier figures on a grid of exact and noisy signals',
    'thorough': 'all directions of all graphs on 4 nodes, transpiled circuits on all graphs on 5',
}
ASSUMPTIONS = ['n is at most the number of (connected) qubits of the device; more is an error',
               'the transpiler of the installed Terra is taken as it is']
CASE_TIMEOUT = 120
PHASES = [k * pi / 8 for k in range(-16, 17)] + [0.1, -0.37, 1, 7.5, 100.25]


def connected(nodes, edges):
    """Is the graph connected?"""
    seen, todo = {0}, [0]
    while todo:
        here = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == here and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == nodes


def graphs(nodes):
    """All connected labelled graphs."""
    every = list(itertools.combinations(range(nodes), 2))
    for k in range(nodes - 1, len(every) + 1):
        for edges in itertools.combinations(every, k):
            if connected(nodes, edges):
                yield edges


def orient(edges, ways):
    """Coupling map: 0 forward, 1 backward, 2 both directions."""
    out = []
    for (a, b), way in zip(edges, ways):
        if way in (0, 2):
            out.append([a, b])
        if way in (1, 2):
            out.append([b, a])
    return out


def cases(tier):
    """All cases, simplest first."""
    deep = tier == 'thorough'
    for n in range(1, 7):
        yield ['linear', n]
    for n in range(1, 4):
        yield ['parity', n]
    for n in range(4, 13):
        yield ['longparity', n]
    for n in range(7, 11):
        yield ['longlinear', n]
    for n in (1, 2, 3, 4, 6, 9, 12):
        for label in ('mqc', 'po'):
            yield ['fourier', n, label]
        yield ['rho', n]
    for nodes in (2, 3, 4, 5):
        for edges in graphs(nodes):
            if nodes <= 3 or (nodes == 4 and (deep or len(edges) == 3)):
                ways = list(itertools.product((0, 1, 2), repeat=len(edges)))
            else:
                ways = [[w] * len(edges) for w in (0, 1, 2)]
            for way in ways:
                for order in ('off', 'up', 'down', 'equal'):
                    if order in ('off', 'up') or way[0] == 0:
                        yield ['layout', nodes, orient(edges, way), order]
    for nodes in (2, 3, 4) + ((5,) if deep else ()):
        for pos, edges in enumerate(graphs(nodes)):
            ways = [[0] * len(edges), [2] * len(edges), [i % 2 for i in range(len(edges))]]
            for way in ways if nodes < 4 or deep else [ways[pos % 3]]:
                for n in range(1, nodes + 1):
                    for kind in ('layout', 'simple', 'simple0', 'mqc', 'mqc0', 'mqcp', 'po', 'pop'):
                        yield ['device', nodes, orient(edges, way), n, kind]
    for shape in ('line', 'ring', 'star', 'grid'):
        for size in (6, 12, 24, 60):
            for order in ('off', 'up'):
                yield ['large', shape, size, order]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def ghz(n):
    """GHZ state vector."""
    vec = np.zeros(2 ** n, dtype=complex)
    vec[0] += 1 / sqrt(2)
    vec[-1] += 1 / sqrt(2)
    return vec


def same_state(ctx, clause, circuit, want):
    """State prepared by a circuit, up to a global phase."""
    got = qsim.unitary(circuit)[:, 0]
    overlap = abs(np.vdot(want, got))
    ctx.close(clause, float(overlap), 1.0, 1e-7, 'overlap with the expected state')


def want_mqc(n, delta, full):
    """Documented outcome probabilities of MQC."""
    p_zero = (1 + cos(n * delta)) / 2
    width = n if full else 1
    return {'0' * width: p_zero, '0' * (width - 1) + '1': 1 - p_zero}


def want_po(n, delta):
    """Outcome probabilities of parity oscillations."""
    return {bits: (1 + (-1) ** (bits.count('1') + n) * cos(n * delta)) / 2 ** n
            for bits in qsim.bitstrings(n)}


def want_simple(n, full):
    """Outcome probabilities of a GHZ state."""
    width = n if full else 1
    return {'0' * width: 0.5, '1' * width: 0.5}


def compare(ctx, clause, circuit, want):
    """Outcome distribution of a circuit."""
    got = qsim.dist(circuit)
    for key in set(got) | set(want):
        ctx.close(clause, float(got.get(key, 0)), float(want.get(key, 0)), 1e-7, 'outcome ' + key)


def bind(circuit, values):
    """Bind parameters."""
    return circuit.bind_parameters(values)


def run_linear(case, ctx):
    """Linear circuits."""
    n = case[1]
    circ = ent.get_ghz_simple(n, measure=False)
    ctx.equal('linear-qubits', [circ.num_qubits, circ.num_clbits], [n, 0])
    same_state(ctx, 'linear-ghz', circ, ghz(n))
    pairs = [sorted(qsim.instructions(circ)[i][1]) for i in range(len(circ.data))
             if len(circ.data[i][1]) == 2]
    ctx.check('linear-chain', all(b == a + 1 for a, b in pairs), pairs)
    for full in (True, False, None):
        args = (full,) if full is not None else ()    # None: the default is a full measurement
        full = full is not False
        compare(ctx, 'linear-measured', ent.get_ghz_simple(n, *([True] + list(args) if args else [])),
                want_simple(n, full))
        para, delta = ent.get_ghz_mqc_para(n, *args)
        for phase in PHASES:
            ctx.step()
            compare(ctx, 'linear-mqc', ent.get_ghz_mqc(n, phase, *args), want_mqc(n, phase, full))
            compare(ctx, 'linear-mqc-para', bind(para, {delta: phase}), want_mqc(n, phase, full))
        meas = ent.get_measurement_circ(n, 'qq', 'cc', *args)
        ctx.equal('registers', [meas.qregs[0].name, meas.cregs[0].name, meas.num_clbits],
                  ['qq', 'cc', n if full else 1])
    para, (delta, minus) = ent.get_ghz_po_para(n)
    for phase in PHASES:
        ctx.step()
        compare(ctx, 'linear-po', ent.get_ghz_po(n, phase), want_po(n, phase))
        compare(ctx, 'linear-po-para', bind(para, {delta: phase, minus: -phase}), want_po(n, phase))


def backend(nodes, cmap, order):
    """A device with the coupling map; gate errors by order of the edges."""
    basis = ['id', 'rz', 'sx', 'x', 'cx']
    config = QasmBackendConfiguration(
        backend_name='ref', backend_version='0.0.0', n_qubits=nodes, basis_gates=basis,
        gates=[GateConfig('cx', [], 'gate cx a,b { }')], local=True, simulator=False,
        conditional=False, open_pulse=False, memory=False, max_shots=1000, coupling_map=cmap)
    stamp = datetime(2020, 1, 1)
    pairs = sorted({tuple(sorted(e)) for e in cmap})
    error = {}
    for i, pair in enumerate(pairs):
        error[pair] = {'up': 0.01 * (i + 1), 'down': 0.01 * (len(pairs) - i)}.get(order, 0.02)
    gates = [Gate(qubits=[q], gate='x', parameters=[Nduv(stamp, 'gate_error', '', 1e-3),
                                                    Nduv(stamp, 'gate_length', 'ns', 30)])
             for q in range(nodes)]
    gates += [Gate(qubits=list(e), gate='cx',
                   parameters=[Nduv(stamp, 'gate_error', '', error[tuple(sorted(e))]),
                               Nduv(stamp, 'gate_length', 'ns', 300)]) for e in cmap]
    props = BackendProperties('ref', '0.0.0', stamp, [[Nduv(stamp, 'T1', 'us', 100)]] * nodes, gates,
                              [])

    class Device(FakeBackend):
        """The device"""
        def properties(self):
            """properties"""
            return props
    return Device(config), error


def check_tiers(ctx, config, cmap, error, order):
    """The tiers are a spanning tree that can be executed in parallel."""
    tiers = config.get_tier_dict()
    edges = [(t, e[0], e[1]) for t in sorted(tiers) for e in tiers[t]]
    nodes = {q for e in cmap for q in e}
    coupled = {tuple(sorted(e)) for e in cmap}
    ctx.equal('tier-number', len(edges), len(nodes) - 1)
    first = edges[0][1]
    when = {first: -1}
    for tier, source, target in edges:
        ctx.check('tier-coupled', tuple(sorted((source, target))) in coupled, (source, target))
        ctx.check('tier-source', source in when and when[source] < tier, edges)
        ctx.check('tier-target', target not in when, edges)
        when[target] = tier
    ctx.equal('tier-all', sorted(when), sorted(nodes))
    for tier in tiers:
        used = [q for e in tiers[tier] for q in e]
        ctx.equal('tier-parallel', len(used), len(set(used)))
    degree = {q: len({p for p in coupled if q in p}) for q in nodes}
    ctx.equal('tier-root', degree[first], max(degree.values()))
    if order in ('up', 'down'):
        for source in nodes:
            errs = [error[tuple(sorted((source, t)))] for _, s, t in edges if s == source]
            ctx.equal('tier-best-gates-first', errs, sorted(errs))


def run_layout(case, ctx):
    """Layouts before transpilation."""
    _, nodes, cmap, order = case
    device, error = backend(nodes, cmap, order)
    config = ent.BConfig(device, order != 'off')
    check_tiers(ctx, config, cmap, error, order)
    coupled = {tuple(sorted(e)) for e in cmap}
    for n in range(1, nodes + 1):
        for barriered in (True, False):
            ctx.step()
            circ, layout = config.get_ghz_layout(n, transpiled=False, barriered=barriered)
            ctx.equal('layout-qubits', circ.num_qubits, n)
            same_state(ctx, 'layout-ghz', circ, ghz(n))
            check_layout(ctx, layout, n, nodes, circ.qubits)
            place = [layout[q] for q in circ.qubits]
            for inst, qubits, _ in qsim.instructions(circ):
                if len(qubits) == 2 and inst.name != 'barrier':
                    ctx.check('layout-coupled',
                              tuple(sorted(place[q] for q in qubits)) in coupled, (cmap, place))
    ctx.raises('too-many', QiskitError, lambda: config.get_ghz_layout(nodes + 1, transpiled=False),
               'more qubits than the device has')
    ctx.raises('too-many', QiskitError, lambda: config.get_ghz_layout(nodes + 1), 'transpiled')


def check_layout(ctx, layout, n, nodes, qubits):
    """Distinct device qubits for the register."""
    ctx.equal('layout-keys', sorted(q.index for q in layout), list(range(n)))
    ctx.check('layout-register', set(layout) == set(qubits) if qubits else True, layout)
    ctx.check('layout-distinct', len(set(layout.values())) == n and
              all(0 <= v < nodes for v in layout.values()), list(layout.values()))


def run_device(case, ctx):
    """Transpiled circuits."""
    _, nodes, cmap, n, kind = case
    device, _ = backend(nodes, cmap, 'up')
    config = ent.BConfig(device)
    full = not kind.endswith('0')
    phases = [0, 0.3, -1.2, pi, 2.5 * pi]
    results = []
    if kind == 'layout':
        circ, layout = config.get_ghz_layout(n)
        results.append((circ, None))
    elif kind.startswith('simple'):
        for args in [(full,)] + [()] * full:
            circ, qreg, layout = config.get_ghz_simple(n, *args)
            ctx.equal('register', qreg.size, n)
            results.append((circ, want_simple(n, full)))
    elif kind in ('mqc', 'mqc0'):
        for phase in phases:
            args = () if full and phase == 0.3 else (full,)
            circ, layout = config.get_ghz_mqc(n, phase, *args)
            results.append((circ, want_mqc(n, phase, full)))
    elif kind == 'mqcp':
        for args in ((True,), (False,), ()):
            fll = False not in args
            circ, delta, layout = config.get_ghz_mqc_para(n, *args)
            results += [(bind(circ, {delta: p}), want_mqc(n, p, fll)) for p in phases]
    elif kind == 'po':
        for phase in phases:
            circ, layout = config.get_ghz_po(n, phase)
            results.append((circ, want_po(n, phase)))
    else:
        circ, (delta, minus), layout = config.get_ghz_po_para(n)
        results += [(bind(circ, {delta: p, minus: -p}), want_po(n, p)) for p in phases]
    check_layout(ctx, layout, n, nodes, None)
    place = {q.index: v for q, v in layout.items()}
    allowed = {tuple(e) for e in cmap}
    for circ, want in results:
        ctx.step()
        ctx.equal('device-qubits', circ.num_qubits, nodes)
        measured = {}
        for inst, qubits, clbits in qsim.instructions(circ):
            name = inst.name
            if name == 'measure':
                measured[clbits[0]] = qubits[0]
            elif len(qubits) > 1 and name != 'barrier':
                ctx.check('device-coupled', len(qubits) == 2 and tuple(qubits) in allowed,
                          (name, qubits, cmap))
        if want is None:
            state = np.zeros(2 ** nodes, dtype=complex)
            state[0] = 1 / sqrt(2)
            state[sum(2 ** place[i] for i in range(n))] += 1 / sqrt(2)
            same_state(ctx, 'device-ghz', circ, state)
            continue
        width = len(next(iter(want)))
        ctx.equal('device-measured', measured, {i: place[i] for i in range(width)})
        compare(ctx, 'device-outcomes', circ, want)


def run_large(case, ctx):
    """Large devices."""
    _, shape, size, order = case
    if shape == 'line':
        edges = [(i, i + 1) for i in range(size - 1)]
    elif shape == 'ring':
        edges = [(i, (i + 1) % size) for i in range(size)]
    elif shape == 'star':
        edges = [(0, i) for i in range(1, size)]
    else:
        wide = {6: 3, 12: 4, 24: 6, 60: 10}[size]
        edges = [(i, i + 1) for i in range(size) if (i + 1) % wide] + \
            [(i, i + wide) for i in range(size - wide)]
    cmap = [list(e) for e in edges]
    device, error = backend(size, cmap, order)
    config = ent.BConfig(device, order != 'off')
    check_tiers(ctx, config, cmap, error, order)
    circ, layout = config.get_ghz_layout(size, transpiled=False)
    check_layout(ctx, layout, size, size, circ.qubits)
    # the state is a GHZ state: every qubit is the target of one CNOT from the part reached so far
    reached = set()
    for inst, qubits, _ in qsim.instructions(circ):
        name = inst.name
        if name == 'h':
            ctx.equal('large-start', reached, set())
            reached.add(qubits[0])
        elif name == 'cx':
            ctx.check('large-ghz', qubits[0] in reached and qubits[1] not in reached, qubits)
            reached.add(qubits[1])
        else:
            ctx.equal('large-gates', name, 'barrier')
    ctx.equal('large-all', len(reached), size)


def run_parity(case, ctx):
    """Parity of count tables."""
    n = case[1]
    keys = qsim.bitstrings(n)
    signs = [(-1) ** k.count('1') for k in keys]
    ctx.equal('pauli-z', np.diag(ent.composite_pauli_z(n)).tolist(), signs)
    ctx.equal('pauli-z-diagonal', np.count_nonzero(ent.composite_pauli_z(n)), 2 ** n)
    for total in range(1, 5):
        for picks in itertools.combinations_with_replacement(keys, total):
            for rev in (0, 1):
                counts = {}
                for key in (reversed(picks) if rev else picks):
                    counts[key] = counts.get(key, 0) + 1
                ctx.step()
                want = sum(v * (-1) ** k.count('1') for k, v in counts.items())
                ctx.close('parity-counts', float(ent.composite_pauli_z_expvalue(counts, n)),
                          float(want), 1e-9, counts)
                probs = {k: v / total for k, v in counts.items()}
                ctx.close('parity-expectation', float(ent.composite_pauli_z_expvalue(probs, n)),
                          want / total, 1e-9, probs)
                ctx.equal('ordered', [float(v) for v in ent.ordered_list_generator(counts, n)],
                          [float(counts.get(k, 0)) for k in keys])


def run_longparity(case, ctx):
    """Parity of sparse tables of many bits."""
    n = case[1]
    keys = qsim.bitstrings(n)
    signs = [(-1) ** k.count('1') for k in keys]
    diag = ent.composite_pauli_z(n) if n < 12 else None
    if diag is not None:
        ctx.equal('pauli-z', np.diag(diag).tolist(), signs)
        ctx.equal('pauli-z-diagonal', np.count_nonzero(diag), 2 ** n)
    tables = [{k: 3} for k in ('0' * n, '1' * n, '0' * (n - 1) + '1', '1' + '0' * (n - 1),
                               '1' * (n - 1) + '0', '0' + '1' * (n - 1))]
    tables.append({k: i + 1 for i, k in enumerate(keys[::-1][::7])})
    tables.append({k: 0.1 * i for i, k in enumerate(keys) if i % 5 == 2})
    for counts in tables:
        ctx.step()
        if n < 12:
            want = sum(v * (-1) ** k.count('1') for k, v in counts.items())
            ctx.close('parity-counts', float(ent.composite_pauli_z_expvalue(counts, n)), float(want),
                      1e-7 * (1 + abs(want)), n)
        ctx.equal('ordered', [float(v) for v in ent.ordered_list_generator(counts, n)],
                  [float(counts.get(k, 0)) for k in keys])


def run_longlinear(case, ctx):
    """Longer linear circuits at a few phases."""
    n = case[1]
    for full in (True, False):
        compare(ctx, 'linear-measured', ent.get_ghz_simple(n, True, full), want_simple(n, full))
        para, delta = ent.get_ghz_mqc_para(n, full)
        for phase in (0, 0.3, -1.1):
            ctx.step()
            compare(ctx, 'linear-mqc', ent.get_ghz_mqc(n, phase, full), want_mqc(n, phase, full))
            compare(ctx, 'linear-mqc-para', bind(para, {delta: phase}), want_mqc(n, phase, full))
    para, (delta, minus) = ent.get_ghz_po_para(n)
    for phase in (0, 0.3, -1.1):
        ctx.step()
        compare(ctx, 'linear-po', ent.get_ghz_po(n, phase), want_po(n, phase))
        compare(ctx, 'linear-po-para', bind(para, {delta: phase, minus: -phase}), want_po(n, phase))


def run_fourier(case, ctx):
    """Fidelity figures of Fourier analysis."""
    from matplotlib import pyplot as plt
    _, n, label = case
    plotter = ent.Plotter(label)
    for points in (2 * n + 2, 2 * n + 8, 2 * n + 15):
        x = np.arange(points) * 2 * pi / points
        for vis, vis_m in ((1.0, 1.0), (0.8, 0.95), (0.31, 0.6)):
            for base, p_raw, p_mit in ((0.5, (0.5, 0.5), (0.5, 0.5)), (0.4, (0.45, 0.35), (0.49, 0.5)),
                                       (0.3, (0.2, 0.6), (0.1, 0.7))):
                if label == 'mqc':
                    y = base + 0.5 * vis * np.cos(n * x)
                    y_m = base + 0.1 + 0.5 * vis_m * np.cos(n * x)
                    height, height_m = vis / 4, vis_m / 4
                else:
                    y = vis * np.cos(n * x + 0.3) + 0.01
                    y_m = vis_m * np.cos(n * x + 0.3)
                    height, height_m = vis / 2, vis_m / 2
                pops = {'P0': p_raw[0], 'P1': p_raw[1], 'P0_m': p_mit[0], 'P1_m': p_mit[1]}
                keep = (x.copy(), y.copy(), y_m.copy(), dict(pops))
                ctx.step()
                with contextlib.redirect_stdout(io.StringIO()):
                    got = plotter.get_fourier_info(n, x, y, y_m, pops)
                plt.close('all')
                ctx.check('fourier-inputs', np.array_equal(x, keep[0]) and np.array_equal(y, keep[1])
                          and np.array_equal(y_m, keep[2]) and pops == keep[3], 'inputs changed')
                ctx.close('fourier-in', [abs(got['In']), abs(got['In_m'])], [height, height_m], 1e-7,
                          'component n')
                if label == 'mqc':
                    ctx.close('fourier-i0', [abs(got['I0']), abs(got['I0_m'])], [base, base + 0.1],
                              1e-7, 'component 0')
                    want = [2 * sqrt(height), sqrt(height) + sqrt(base / 2), 2 * sqrt(height_m),
                            sqrt(height_m) + sqrt((base + 0.1) / 2)]
                    ctx.close('fourier-bounds', [got[k] for k in ('LB', 'UB', 'LB_m', 'UB_m')], want,
                              1e-7, 'bounds')
                    fids = [sum(p_raw) / 2 + sqrt(height), sum(p_mit) / 2 + sqrt(height_m)]
                else:
                    fids = [(sum(p_raw) + 2 * height) / 2, (sum(p_mit) + 2 * height_m) / 2]
                ctx.close('fourier-fidelity', [got['F'], got['F_m']], fids, 1e-7, 'fidelity')
    ctx.raises('fourier-missing', Exception,
               lambda: plotter.get_fourier_info(n, x, y, None, pops), 'no mitigated data')
    ctx.raises('fourier-missing', Exception,
               lambda: plotter.get_fourier_info(n, x, y, y_m, None), 'no populations')


def run_rho(case, ctx):
    """Fidelity of density matrices."""
    n = case[1]
    dim = 2 ** n
    for mix in (0, 0.25, 0.6, 1):
        for phase in PHASES[16:32:3]:
            for skew in (0, 0.3, pi / 4, 1.2):
                vec = np.zeros(dim, dtype=complex)
                vec[0] = np.cos(skew)
                vec[-1] += np.exp(1j * phase) * np.sin(skew)
                rho = (1 - mix) * np.outer(vec, vec.conj()) + mix * np.eye(dim) / dim
                ctx.step()
                want = 0.5 * (1 - mix) * (1 + abs(np.sin(2 * skew))) + mix / dim
                ctx.close('rho-fidelity', float(ent.rho_to_fidelity(rho)), want, 1e-9,
                          'fidelity with the closest GHZ state')
