"""C12: randomized benchmarking circuits."""
import itertools

import numpy as np
from numpy.random import RandomState
from qiskit import QiskitError, QuantumCircuit
from qiskit.circuit.library import (XGate, YGate, ZGate, HGate, SGate, SdgGate, CXGate, CZGate,
                                    SwapGate, TGate, IGate)
from qiskit.quantum_info import Clifford
from qiskit.ignis.verification.randomized_benchmarking import (randomized_benchmarking_seq,
                                                               CNOTDihedral)

from vlib import qsim

ID = 'C12'
BOUNDS = {
    'quick': 'standard RB: every pattern (all groupings and orders with groups of 1-3) on 3 qubits '
             'and every third one on 4, x 6 (lengths, multipliers, align) settings; interleaved: '
             'all 24 one-qubit Cliffords and all 16 one-qubit dihedral elements plus 9 / 8 '
             'two-qubit elements x 3 ways of passing them x 5 patterns; CNOT-dihedral and purity '
             'patterns with groups of 1-2 (dihedral 3); seeds 0..63 for the drawn elements; integer '
             'and RandomState seeds; rejected inputs; 12 qubits, 11 groups, 12 lengths, 12 seeds, '
             'two three-qubit groups, sequences of up to 240 elements',
    'thorough': 'all patterns on 4 qubits, 10 settings, seeds 0..255',
}
ASSUMPTIONS = ['group elements are recognised by the barriers between them',
               'random draws are covered for a range of seeds, not for every group element']
CASE_TIMEOUT = 300

CLIFF_WORDS = None


def cliff1_words():
    """Shortest h/s words for the 24 one-qubit Cliffords."""
    global CLIFF_WORDS
    if CLIFF_WORDS is None:
        mats = {'h': np.array([[1, 1], [1, -1]]) / np.sqrt(2), 's': np.diag([1, 1j])}
        found = [('', np.eye(2))]
        queue = [('', np.eye(2))]
        while queue:
            word, mat = queue.pop(0)
            for g in 'hs':
                new = mats[g] @ mat
                if not any(qsim.same_unitary(new, m) for _, m in found):
                    found.append((word + g, new))
                    queue.append((word + g, new))
        CLIFF_WORDS = [w for w, _ in found]
    return CLIFF_WORDS


# two-qubit interleaved elements, as gate words
CLIFF2 = ['cx01', 'cx10', 'cz', 'swap', 'h0s1', 'cx01h0', 's1cx10h1', 'x0', 'y1cx01']
DIH2 = ['cx01', 'cx10', 'cz', 'swap', 't0x1', 'cx01t1', 'x0cx10s1', 't1']
DIH1 = ['%s%s' % (x, t) for x in ('', 'x') for t in ('', 't', 's', 'st', 'z', 'zt', 'zs', 'zst')]


def word_circuit(word, n):
    """'cx01h0' or (n==1) 'hsh' as a circuit."""
    circ = QuantumCircuit(n)
    i = 0
    while i < len(word):
        if word[i:i + 2] == 'cx':
            circ.cx(int(word[i + 2]), int(word[i + 3]))
            i += 4
        elif word[i:i + 2] == 'cz':
            circ.cz(0, 1)
            i += 2
        elif word[i:i + 4] == 'swap':
            circ.swap(0, 1)
            i += 4
        elif n == 1:
            getattr(circ, word[i])(0)
            i += 1
        else:
            getattr(circ, word[i])(int(word[i + 1]))
            i += 2
    return circ


GATES = {'x': XGate, 'y': YGate, 'z': ZGate, 'h': HGate, 's': SGate, 't': TGate, 'cx01': CXGate,
         'cz': CZGate, 'swap': SwapGate, '': IGate}


def patterns(n, sizes=(1, 2, 3)):
    out = []
    for k in range(1, n + 1):
        for perm in itertools.permutations(range(n), k):
            for pat in qsim.compositions(perm, k):
                if all(len(p) in sizes for p in pat):
                    out.append([list(p) for p in pat])
    return out


SETTINGS = [([1], 1, False), ([1, 3], 1, False), ([1, 2], 1, True), ([2, 3], 2, False),
            ([1, 2], 'inc', True), ([2], 'dec', False),
            ([1, 2, 3, 4], 1, True), ([3], 3, True), ([1, 2, 5], 'inc', False), ([1, 10], 1, False),
            (list(range(1, 13)), 1, False), ([1, 2, 3, 5, 8, 13, 14, 15, 16, 17, 18], 'inc', True),
            ([1, 25], 2, False), ([40, 120], 'inc', True)]


def cases(tier):
    thorough = tier == 'thorough'
    nset = 10 if thorough else 6
    out = []
    for pat in patterns(3):
        for s in range(nset):
            out.append(['rb', pat, s, 1 + s, '0'])
    pats4 = [p for p in patterns(4) if max(max(x) for x in p) == 3]
    for i, pat in enumerate(pats4):
        if thorough or i % 3 == 0:
            for s in (range(nset) if thorough else [i % nset]):
                out.append(['rb', pat, s, 7 + i, '0'])
    out.append(['rb', [[2], [6, 4]], 4, 3, '0'])
    out.append(['rb', [[0, 3], [2], [1]], 4, 3, 'Clifford'])
    out.append(['rb', [[5]], 1, 3, None])
    for pat in ([[10]], [[10, 2]], [[1], [11, 0], [10]], [[i] for i in range(11)],
                [[11, 10], [2, 1], [0, 9]]):
        for group in ('0', '1'):
            out.append(['rb', pat, 1, 4, group])
            out.append(['rb', pat, 4, 4, group])
            out.append(['rb', pat, 10, 4, group, 12 if len(pat) < 2 else 2])
            if len(pat) < 4:
                out.append(['rb', pat, 11, 4, group, 1])
            if len(pat) == 3:
                out.append(['inter', pat, [('x', 'cx01')[len(p) - 1] for p in pat], 'circuit', 1,
                            6, group])
    for group in ('0', '1'):
        for s in (12, 13):
            out.append(['rb', [[0]], s, 8, group])
            out.append(['rb', [[2], [1]], s, 9, group])
        out.append(['rb', [[0, 1, 2], [3, 4, 5]], 1, 8, group])
        out.append(['rb', [[5, 0, 3], [1, 4, 2], [6]], 4, 8, group])
        out.append(['inter', [[0]], ['x'], 'circuit', 12, 8, group])
    for group in ('NonClifford', 'CNOTDihedral', 'clifford', 'Clifford'):
        out.append(['rb', [[1, 0], [2]], 2, 5, group])
    for pat in patterns(3):
        for s in (range(nset) if thorough else [len(str(pat)) % nset]):
            out.append(['rb', pat, s, 2 + s, ('1', 'CNOT-Dihedral', 'Non-Clifford')[s % 3]])
    # interleaved
    for i, w in enumerate(cliff1_words()):
        for form in ('circuit', 'element', 'gate'):
            out.append(['inter', [[i % 3]], [w], form, i % nset, 1 + i, '0'])
        out.append(['inter', [[1], [0]], [w, 'h'], 'circuit', i % nset, 1 + i, '0'])
    for i, w in enumerate(CLIFF2):
        for form in ('circuit', 'element', 'gate'):
            out.append(['inter', [[0, 1]], [w], form, 1, 1 + i, '0'])
            out.append(['inter', [[1, 0]], [w], form, 2, 1 + i, '0'])
        out.append(['inter', [[3, 1], [0]], [w, 's'], 'circuit', 4, 1 + i, '0'])
        out.append(['inter', [[0], [2, 1]], ['hs', w], 'element', 5, 1 + i, '0'])
        out.append(['inter', [[0, 2], [3, 1]], [w, CLIFF2[(i + 1) % len(CLIFF2)]], 'circuit', 1,
                    1 + i, '0'])
    for i, w in enumerate(DIH1):
        for form in ('circuit', 'element', 'gate'):
            out.append(['inter', [[i % 3]], [w], form, i % nset, 1 + i, '1'])
        out.append(['inter', [[1], [0]], [w, 'x'], 'circuit', i % nset, 1 + i, '1'])
    for i, w in enumerate(DIH2):
        for form in ('circuit', 'element', 'gate'):
            out.append(['inter', [[1, 0]], [w], form, 1, 1 + i, '1'])
        out.append(['inter', [[3, 1], [0]], [w, 's'], 'circuit', 4, 1 + i, '1'])
        out.append(['inter', [[0, 2], [3, 1]], [w, DIH2[(i + 1) % len(DIH2)]], 'circuit', 1,
                    1 + i, '1'])
    # purity
    for pat in patterns(3, (1,)) + patterns(3, (2,)) + [[[3, 0], [2, 1]], [[0, 1], [2, 3]],
                                                         [[1], [3], [0], [2]]]:
        for mult in ('none', 'default'):
            out.append(['purity', pat, mult, 3])
    out.append(['purity', [[2, 0, 1]], 'default', 4])
    # seeds
    for group in ('0', '1'):
        for r in range(256 if thorough else 64):
            out.append(['seed', group, r])
        out.append(['draw', group, 256 if thorough else 64])
        out.append(['unseeded', group])
        for kind in ('RandomState', 'npint'):
            out.append(['generator', group, kind])
    out.append(['reject'])
    return out


def run(case, ctx):
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)


def multiplier(kind, npat):
    if kind == 'inc':
        return [i + 1 for i in range(npat)]
    if kind == 'dec':
        return [npat - i for i in range(npat)]
    return kind


def desc(inst, qubits):
    return (inst.name, tuple(round(float(p), 9) for p in inst.params), tuple(qubits))


def body(circ):
    return [(i, q, c) for i, q, c in qsim.instructions(circ) if i.name != 'measure']


def check_measure(ctx, circ, flat):
    ins = qsim.instructions(circ)
    meas = [(q[0], c[0]) for i, q, c in ins if i.name == 'measure']
    ctx.equal('measure', sorted(meas), sorted(zip(flat, range(len(flat)))))
    ctx.equal('clbits', circ.num_clbits, len(flat))
    seen = set()
    for i, q, _ in ins:
        if i.name == 'measure':
            seen.add(q[0])
        elif i.name != 'barrier':
            ctx.check('measure_last', not seen & set(q), (i.name, q))
            ctx.check('only_listed', set(q) <= set(flat), (i.name, q))


def local_unitary(gates, pat):
    """Unitary of gates [(inst, qubits)] on the qubits of pat, in pattern order."""
    n = len(pat)
    mat = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for inst, q in gates:
        mat = qsim.apply(mat, qsim.gate_matrix(inst), [pat.index(x) for x in q], n)
    return mat.reshape(2 ** n, 2 ** n)


def blocks(ctx, circ, pattern, lengths_, mults, align, per_elem=1):
    """Split the circuit: for each pattern the list of element blocks and the tail."""
    flat = set(q for p in pattern for q in p)
    out = []
    for pat, mult in zip(pattern, mults):
        proj = []
        for inst, q, _ in body(circ):
            if set(q) & set(pat):
                if inst.name != 'barrier':
                    ctx.check('no_cross_talk', set(q) <= set(pat), (inst.name, q, pattern))
                proj.append((inst, q))
        pos = 0
        elems = []
        for _ in range(lengths_):
            for _ in range(mult * per_elem):
                cur = []
                while pos < len(proj) and proj[pos][0].name != 'barrier':
                    cur.append(proj[pos])
                    pos += 1
                ctx.check('element_count', pos < len(proj) and set(proj[pos][1]) == set(pat),
                          'pattern %s: fewer than %d elements' % (pat, lengths_ * mult * per_elem))
                pos += 1
                elems.append(cur)
            if align:
                ctx.check('align', pos < len(proj) and proj[pos][0].name == 'barrier' and
                          set(proj[pos][1]) == flat, 'no barrier across the patterns')
                pos += 1
        tail = proj[pos:]
        ctx.check('element_count', all(i.name != 'barrier' for i, _ in tail),
                  'pattern %s: more than %d elements' % (pat, lengths_ * mult * per_elem))
        out.append((elems, tail))
    return out


def is_clifford(mat):
    n = int(np.log2(len(mat)))
    for q in range(n):
        for p in (np.array([[0, 1], [1, 0]]), np.diag([1, -1])):
            op = np.kron(np.kron(np.eye(2 ** (n - 1 - q)), p), np.eye(2 ** q))
            img = mat @ op @ mat.conj().T
            # a Pauli: one non-zero entry of modulus one per row, all powers of i
            if not np.allclose(np.sum(np.abs(img) > 1e-9, axis=1), 1):
                return False
            vals = img[np.abs(img) > 1e-9]
            if not np.allclose(vals ** 4, 1, atol=1e-7):
                return False
    return True


def is_dihedral(mat):
    if not np.allclose(np.sum(np.abs(mat) > 1e-9, axis=0), 1):
        return False
    vals = mat[np.abs(mat) > 1e-9]
    return np.allclose((vals / vals[0]) ** 8, 1, atol=1e-7)


def identity(ctx, clause, circ, want=None):
    if want is not None:
        mat = qsim.unitary(qsim.strip_measure(circ)[0])
        ctx.check(clause, qsim.same_unitary(mat, want), circ.name)
        return
    # the identity acts as the identity on every set of qubits joined by gates
    gates = [(i, q) for i, q, _ in body(circ) if i.name != 'barrier']
    groups = []
    for _, q in gates:
        hit = [g for g in groups if g & set(q)]
        groups = [g for g in groups if not g & set(q)] + [set(q).union(*hit)]
    for group in groups:
        mat = local_unitary([(i, q) for i, q in gates if set(q) <= group], sorted(group))
        ctx.check(clause, qsim.same_unitary(mat, np.eye(len(mat))), (circ.name, sorted(group)))


def key(elems):
    return [[desc(i, q) for i, q in e] for e in elems]


def check_family(ctx, circs, pattern, lengths_, mult, align, group, words=None):
    """One seed's list of circuits, by length."""
    mults = list(mult) if hasattr(mult, '__len__') else [mult] * len(pattern)
    flat = [q for p in pattern for q in p]
    member = is_dihedral if group not in ('0', None, 'Clifford', 'clifford') else is_clifford
    per = 1 if words is None else 2
    ctx.equal('one_circuit_per_length', len(circs), len(lengths_))
    last = None
    for circ, length in zip(circs, lengths_):
        check_measure(ctx, circ, flat)
        identity(ctx, 'identity', circ)
        parts = blocks(ctx, circ, pattern, length, mults, align, per)
        for pat, (elems, tail), idx in zip(pattern, parts, range(len(pattern))):
            ctx.comparisons += 1
            for e in elems:
                ctx.check('group_member', member(local_unitary(e, pat)), (circ.name, key([e])))
            if words is not None:
                want = qsim.unitary(word_circuit(words[idx], len(pat)))
                for e in elems[1::2]:
                    ctx.check('interleaved_element', qsim.same_unitary(local_unitary(e, pat), want),
                              (words[idx], key([e])))
            if last is not None:
                ctx.equal('prefix', key(elems)[:len(last[idx][0])], key(last[idx][0]))
        last = parts
    return last


def seq(**kw):
    return randomized_benchmarking_seq(**kw)


def kwargs(pattern, setting, rseed, group):
    lengths_, mult, align = SETTINGS[setting]
    mult = multiplier(mult, len(pattern))
    kw = dict(nseeds=2, length_vector=list(lengths_), rb_pattern=[list(p) for p in pattern],
              length_multiplier=mult, align_cliffs=align, rand_seed=rseed, seed_offset=setting)
    if group is not None:
        kw['group_gates'] = group
    return kw, lengths_, mult, align


def check_xdata(ctx, xdata, pattern, lengths_, mult):
    mults = list(mult) if hasattr(mult, '__len__') else [mult] * len(pattern)
    ctx.equal('xdata', np.asarray(xdata).tolist(), [[m * x for x in lengths_] for m in mults])


def check_names(ctx, circs, prefix, offset):
    for s, row in enumerate(circs):
        for i, c in enumerate(row):
            ctx.equal('name', c.name, '%s_length_%d_seed_%d' % (prefix, i, s + offset))


def check_x(ctx, xcircs, zcircs, flat):
    """The X-type circuit is the Z-type one between Hadamards."""
    ctx.equal('x_count', len(xcircs), len(zcircs))
    for xc, zc in zip(xcircs, zcircs):
        check_measure(ctx, xc, flat)
        identity(ctx, 'x_identity', xc)
        for q in flat:
            xs = [desc(i, qq) for i, qq, _ in body(xc) if q in qq and i.name != 'barrier']
            zs = [desc(i, qq) for i, qq, _ in body(zc) if q in qq and i.name != 'barrier']
            ctx.equal('x_between_h', xs, [('h', (), (q,))] + zs + [('h', (), (q,))])


def run_rb(case, ctx):
    _, pattern, setting, rseed, group = case[:5]
    nseeds = case[5] if len(case) > 5 else 2
    kw, lengths_, mult, align = kwargs(pattern, setting, rseed, group)
    kw['nseeds'] = nseeds
    out = seq(**kw)
    ctx.step()
    dih = group not in ('0', None, 'Clifford', 'clifford')
    ctx.equal('outputs', len(out), 3 if dih else 2)
    check_xdata(ctx, out[1], pattern, lengths_, mult)
    ctx.equal('seeds', len(out[0]), nseeds)
    flat = [q for p in pattern for q in p]
    check_names(ctx, out[0], 'rb_cnotdihedral_Z' if dih else 'rb', setting)
    for circs in out[0]:
        parts = check_family(ctx, circs, pattern, lengths_, mult, align, group)
        ctx.outcome([key(e) for e, _ in parts])
    if dih:
        check_names(ctx, out[2], 'rb_cnotdihedral_X', setting)
        for xc, zc in zip(out[2], out[0]):
            check_x(ctx, xc, zc, flat)


def make_elem(word, n, form, group):
    circ = word_circuit(word, n)
    if form == 'circuit':
        return circ
    if form == 'gate':
        if word in GATES and (word or n == 1) and (word not in ('cx01', 'cz', 'swap') or n == 2):
            return GATES[word]()
        return circ.to_gate() if group == '0' else circ
    if group == '0':
        return Clifford(circ)
    return CNOTDihedral(n).from_circuit(circ)


def run_inter(case, ctx):
    _, pattern, words, form, setting, rseed, group = case
    kw, lengths_, mult, align = kwargs(pattern, setting, rseed, group)
    elems = [make_elem(w, len(p), form, group) for w, p in zip(words, pattern)]
    kw['interleaved_elem'] = elems
    out = seq(**kw)
    ctx.step()
    dih = group == '1'
    ctx.equal('outputs', len(out), 5 if dih else 3)
    check_xdata(ctx, out[1], pattern, lengths_, mult)
    std, inter = out[0], out[3] if dih else out[2]
    check_names(ctx, std, 'rb_cnotdihedral_Z' if dih else 'rb', setting)
    check_names(ctx, inter, 'rb_cnotdihedral_interleaved_Z' if dih else 'rb_interleaved', setting)
    flat = [q for p in pattern for q in p]
    for a, b in zip(std, inter):
        pa = check_family(ctx, a, pattern, lengths_, mult, align, group)
        pb = check_family(ctx, b, pattern, lengths_, mult, align, group, words)
        for (ea, _), (eb, _) in zip(pa, pb):
            ctx.equal('same_random_elements', key(eb[0::2]), key(ea))
    # the standard circuits do not depend on interleaving
    kw.pop('interleaved_elem')
    alone = seq(**kw)
    ctx.equal('standard_unchanged', [[key([[(i, q) for i, q, _ in body(c)]]) for c in r]
                                     for r in alone[0]],
              [[key([[(i, q) for i, q, _ in body(c)]]) for c in r] for r in std])
    if dih:
        check_names(ctx, out[2], 'rb_cnotdihedral_X', setting)
        check_names(ctx, out[4], 'rb_cnotdihedral_interleaved_X', setting)
        for xc, zc in zip(out[2], out[0]):
            check_x(ctx, xc, zc, flat)
        for xc, zc in zip(out[4], out[3]):
            check_x(ctx, xc, zc, flat)


ROT = {'Z': np.eye(2), 'X': np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2),
       'Y': np.array([[1, -1], [1, 1]]) / np.sqrt(2)}


def run_purity(case, ctx):
    _, pattern, mult, rseed = case
    n = len(pattern[0])
    kw = dict(nseeds=2, length_vector=[1, 2], rb_pattern=[list(p) for p in pattern],
              is_purity=True, rand_seed=rseed, seed_offset=2)
    if mult == 'none':
        kw['length_multiplier'] = None
    circs, xdata, npurity = seq(**kw)
    ctx.step()
    ctx.equal('npurity', npurity, 3 ** n)
    check_xdata(ctx, xdata, pattern, [1, 2], 1)
    flat = [q for p in pattern for q in p]
    ctx.equal('seeds', len(circs), 2)
    for s, per_seed in enumerate(circs):
        ctx.equal('purity_count', len(per_seed), 3 ** n)
        letters = []
        for row in per_seed:
            ctx.equal('one_circuit_per_length', len(row), 2)
            names = [c.name.split('_') for c in row]
            letters.append(names[0][2])
            for li, (nm, circ) in enumerate(zip(names, row)):
                ctx.equal('name', nm, ['rb', 'purity', letters[-1], 'length', str(li), 'seed',
                                       str(s + 2)])
                check_measure(ctx, circ, flat)
                want = np.eye(1)
                per_q = {q: p.index(q) for p in pattern for q in p}
                for q in range(circ.num_qubits):
                    want = np.kron(ROT[letters[-1][per_q[q]]] if q in per_q else np.eye(2), want)
                identity(ctx, 'purity_rotation', circ, want)
        ctx.equal('purity_bases', sorted(letters),
                  sorted(''.join(x) for x in itertools.product('XYZ', repeat=n)))


def seq_key(circs):
    return [[[desc(i, q) for i, q, _ in qsim.instructions(c)] for c in row] for row in circs]


def run_seed(case, ctx):
    """Equal seeds give equal circuits; distinct positions are not copies of each other."""
    _, group, rseed = case
    kw = dict(nseeds=2, length_vector=[12], rb_pattern=[[0], [1]], rand_seed=rseed,
              group_gates=group)
    a, b = seq(**kw), seq(**kw)
    ctx.step(2)
    ctx.equal('deterministic', seq_key(a[0]), seq_key(b[0]))
    per = []
    for row in a[0]:
        parts = blocks(ctx, row[0], [[0], [1]], 12, [1, 1], False)
        for pat, (elems, _) in zip(([0], [1]), parts):
            mats = [local_unitary(e, pat) for e in elems]
            distinct = []
            for m in mats:
                if not any(qsim.same_unitary(m, d) for d in distinct):
                    distinct.append(m)
            ctx.check('positions_vary', len(distinct) >= 3, '%d distinct of 12' % len(distinct))
            per.append([[d[:2] for d in e] for e in key(elems)])
    for i, j in itertools.combinations(range(4), 2):
        ctx.check('sequences_vary', per[i] != per[j], 'sequences %d and %d are equal' % (i, j))
    ctx.outcome(per)


def run_draw(case, ctx):
    """The first element varies with the seed over much of the group."""
    _, group, count = case
    found = []
    for r in range(count):
        out = seq(nseeds=1, length_vector=[1], rb_pattern=[[0]], rand_seed=r, group_gates=group)
        ctx.step()
        elems = blocks(ctx, out[0][0][0], [[0]], 1, [1], False)[0][0]
        mat = local_unitary(elems[0], [0])
        if not any(qsim.same_unitary(mat, m) for m in found):
            found.append(mat)
    ctx.check('draws', len(found) >= (12 if group == '0' else 8), '%d distinct' % len(found))
    ctx.outcome(len(found))


def run_unseeded(case, ctx):
    kw = dict(nseeds=1, length_vector=[25], rb_pattern=[[0]], group_gates=case[1])
    a, b = seq(**kw), seq(**kw)
    ctx.step(2)
    ctx.check('unseeded_varies', seq_key(a[0]) != seq_key(b[0]), 'two unseeded calls are equal')


def run_generator(case, ctx):
    _, group, kind = case
    make = {'RandomState': RandomState, 'npint': np.int64}[kind]
    res = {}
    for r in (0, 1, 5, 17, 2 ** 20):
        for rep in (0, 1):
            out = seq(nseeds=2, length_vector=[1, 12], rb_pattern=[[0], [2, 1]],
                      rand_seed=make(r), group_gates=group)
            ctx.step()
            for circs in out[0]:
                parts = check_family(ctx, circs, [[0], [2, 1]], [1, 12], 1, False, group)
                for pat, (elems, _) in zip(([0], [2, 1]), parts):
                    distinct = []
                    for elem in elems:
                        mat = local_unitary(elem, pat)
                        if not any(qsim.same_unitary(mat, d) for d in distinct):
                            distinct.append(mat)
                    ctx.check('positions_vary', len(distinct) >= 3,
                              '%d distinct of 12' % len(distinct))
            res[r, rep] = seq_key(out[0])
        ctx.equal('deterministic', res[r, 0], res[r, 1])
        ctx.check('sequences_vary', res[r, 0][0] != res[r, 0][1], kind)
    for r, s in itertools.combinations((0, 1, 5, 17, 2 ** 20), 2):
        ctx.check('seeds_vary', res[r, 0] != res[s, 0], (r, s))


def run_reject(case, ctx):
    qc2, qc1 = QuantumCircuit(2), QuantumCircuit(1)
    qct = QuantumCircuit(1)
    qct.t(0)
    qch = QuantumCircuit(1)
    qch.h(0)
    bad = [dict(rb_pattern=[[0, 0]]), dict(rb_pattern=[[0], [1, 0]]),
           dict(rb_pattern=[[0, 1], [2], [1]]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, 0]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, -2]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, 1.5]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, 2, 3]),
           dict(length_multiplier=0), dict(length_multiplier=-1), dict(length_multiplier=1.5),
           dict(rb_pattern=[[0], [1, 2]], is_purity=True),
           dict(rb_pattern=[[0], [1]], is_purity=True, length_multiplier=[1, 1]),
           dict(rb_pattern=[[0], [1]], interleaved_elem=[qc1]),
           dict(rb_pattern=[[0], [1]], interleaved_elem=[qc1, qc2]),
           dict(rb_pattern=[[0, 1]], interleaved_elem=[qc1]),
           dict(rb_pattern=[[0], [1, 2]], interleaved_elem=[qc2, qc1]),
           dict(rb_pattern=[[1, 2], [0]], interleaved_elem=[qc1, qc2]),
           dict(rb_pattern=[[1, 2], [0]], interleaved_elem=[qc2, qc2]),
           dict(interleaved_elem=[qct]), dict(interleaved_elem=[TGate()]),
           dict(interleaved_elem=[qch], group_gates='1'),
           dict(interleaved_elem=[HGate()], group_gates='1'),
           dict(interleaved_elem=[Clifford(qc1)], group_gates='1'),
           dict(interleaved_elem=[CNOTDihedral(1)], group_gates='0'),
           dict(group_gates='2'), dict(group_gates='nope')]
    for kw in bad:
        ctx.step()
        ctx.raises('reject', (QiskitError, ValueError),
                   lambda kw=kw: seq(length_vector=[1, 2], **kw), str(kw))
    out = seq()
    ctx.equal('defaults', np.asarray(out[1]).tolist(), [[1, 10, 20]])
    check_family(ctx, out[0][0], [[0]], [1, 10, 20], 1, False, '0')
