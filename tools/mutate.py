"""Mutation campaign: small syntactic changes of /repo's sources, and which checks notice them.

usage (inside a mount namespace per slot, see tools/mutslot.sh): not part of any check.
  mutate.py list FILE...              number of mutants per file
  mutate.py run OUT.jsonl NPROC EVERY OFFSET FILE...   run every EVERY-th mutant
Needs unshare; each slot has its own copy of the repository.
"""
import ast
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

COVER = json.load(open(os.environ['MUT_COVER'])) if os.environ.get('MUT_COVER') else None
COST = {'C02': 60, 'C08': 80, 'C12': 60, 'C13': 200, 'C17': 200, 'C18': 80, 'C19': 120, 'C25': 100,
        'C26': 60, 'C05': 50, 'C27': 60}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')


def docstring_nodes(tree):
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and \
                isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            out.add(id(node.body[0]))
            out.add(id(node.body[0].value))
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.BitXor: ast.BitOr, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.MatMult: ast.Mult}


def mutants(source):
    """Yield (line, description, mutated source)."""
    tree = ast.parse(source)
    docs = docstring_nodes(tree)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and (node.name.startswith('plot') or
                                                  '_plot' in node.name):
            for sub in ast.walk(node):
                skip.add(id(sub))
        if isinstance(node, ast.Raise):
            for sub in ast.walk(node):
                if sub is not node:
                    skip.add(id(sub))
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(id(node))
        if isinstance(node, ast.FunctionDef):
            for arg in node.args.args + node.args.kwonlyargs:
                if arg.annotation:
                    for sub in ast.walk(arg.annotation):
                        skip.add(id(sub))
            if node.returns:
                for sub in ast.walk(node.returns):
                    skip.add(id(sub))
    nodes = [n for n in ast.walk(tree)]
    index = {id(n): i for i, n in enumerate(nodes)}

    def variant(node, change):
        dup = copy.deepcopy(tree)
        target = [n for n in ast.walk(dup)][index[id(node)]]
        parent = None
        for par in ast.walk(dup):
            for field, val in ast.iter_fields(par):
                if val is target:
                    parent = (par, field, None)
                elif isinstance(val, list):
                    for i, v in enumerate(val):
                        if v is target:
                            parent = (par, field, i)
        new = change(target)
        if new is not target:
            par, field, i = parent
            if i is None:
                setattr(par, field, new)
            else:
                getattr(par, field)[i] = new
        ast.fix_missing_locations(dup)
        return ast.unparse(dup)

    for node in nodes:
        if id(node) in skip or id(node) in docs:
            continue
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                if type(op) in CMP:
                    def chg(t, i=i, op=op):
                        t.ops[i] = CMP[type(op)]()
                        return t
                    yield line, 'cmp %s' % type(op).__name__, variant(node, chg)
        elif isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            if isinstance(node.op, ast.Mod) and isinstance(getattr(node, 'left', None), ast.Constant) \
                    and isinstance(node.left.value, str):
                continue

            def chg(t):
                t.op = BIN[type(t.op)]()
                return t
            yield line, 'bin %s' % type(node.op).__name__, variant(node, chg)
        elif isinstance(node, ast.BoolOp):
            def chg(t):
                t.op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                return t
            yield line, 'bool', variant(node, chg)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            yield line, 'unary', variant(node, lambda t: t.operand)
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield line, 'const %s' % node.value, variant(
                    node, lambda t: ast.Constant(not t.value))
            elif isinstance(node.value, int):
                yield line, 'const %s+1' % node.value, variant(
                    node, lambda t: ast.Constant(t.value + 1))
            elif isinstance(node.value, float):
                yield line, 'const %s' % node.value, variant(
                    node, lambda t: ast.Constant(t.value * 1.5 + 0.01))
            elif isinstance(node.value, str) and 0 < len(node.value) <= 2:
                yield line, 'str %r' % node.value, variant(
                    node, lambda t: ast.Constant({'0': '1', '1': '0', 'X': 'Z', 'Z': 'X'}.get(
                        t.value, t.value + '_')))
        elif isinstance(node, (ast.If, ast.IfExp)):
            def yes(t):
                t.test = ast.Constant(True)
                return t

            def no(t):
                t.test = ast.Constant(False)
                return t
            yield line, 'if True', variant(node, yes)
            yield line, 'if False', variant(node, no)
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue)) and \
                not (isinstance(node, ast.Assign) and node in tree.body):
            yield line, 'delete %s' % ast.unparse(node)[:50].replace('\n', ' '), variant(
                node, lambda t: ast.Pass())
        elif isinstance(node, ast.Call):
            name = node.func.id if isinstance(node.func, ast.Name) else \
                getattr(node.func, 'attr', '')
            if name in ('sorted', 'reversed', 'copy', 'deepcopy', 'abs', 'transpose', 'conj',
                        'conjugate', 'real', 'sum') and len(node.args) >= 1:
                yield line, 'drop call %s' % name, variant(node, lambda t: t.args[0])
            elif len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                def swap(t):
                    t.args[0], t.args[1] = t.args[1], t.args[0]
                    return t
                yield line, 'swap args %s' % name, variant(node, swap)
        elif isinstance(node, ast.Attribute) and node.attr in ('T', 'real', 'imag') and \
                isinstance(node.ctx, ast.Load):
            yield line, 'drop .%s' % node.attr, variant(node, lambda t: t.value)
        elif isinstance(node, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                if getattr(node, part) is not None:
                    def chg(t, part=part):
                        setattr(t, part, None)
                        return t
                    yield line, 'slice %s' % part, variant(node, chg)


def plan():
    """file -> checks"""
    out = {}
    for text in open(os.path.join(ROOT, 'properties.jsonl')):
        prop = json.loads(text)
        for name in prop['anchors']['files']:
            out.setdefault(name, []).append(prop['id'])
    return out


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    files = plan()
    if cmd == 'list':
        for name in args or sorted(files):
            count = sum(1 for _ in mutants(open(os.path.join(REPO, name)).read()))
            print(name, count, files.get(name))
        return
    out, nproc, every, offset = args[0], int(args[1]), int(args[2]), int(args[3])
    names = args[4:] or sorted(files)
    jobs = []
    for name in names:
        src = open(os.path.join(REPO, name)).read()
        for i, (line, what, text) in enumerate(mutants(src)):
            if i % every == offset:
                jobs.append((name, i, line, what, text))
    # resume, and spread the order over the files
    seen = set()
    if os.path.exists(out):
        seen = {(r['file'], r['i']) for r in map(json.loads, open(out))}
    jobs = [j for j in jobs if j[:2] not in seen]
    jobs.sort(key=lambda j: hashlib.md5(repr(j[:2]).encode()).hexdigest())
    print(len(jobs), 'mutants', flush=True)
    slots = queue.Queue()
    for i in range(nproc):
        path = '/tmp/mutslot%d' % i
        shutil.rmtree(path, ignore_errors=True)
        shutil.copytree(REPO, path + '/repo', ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(ROOT, path + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'out'))
        slots.put(path)
    lock = queue.Queue()
    start = time.time()

    def work(job):
        name, i, line, what, text = job
        slot = slots.get()
        target = os.path.join(slot, 'repo', name)
        orig = open(target).read()
        res = dict(file=name, i=i, line=line, what=what)
        try:
            open(target, 'w').write(text)
            t0 = time.time()
            verdict = 'survived'
            pids = files.get(name, [])
            if COVER:
                hits = COVER.get(name, {})
                near = [p for n in range(line, line + (12 if 'delete' in what or 'if' in what else 4))
                        for p in hits.get(str(n), [])]
                # checks which execute the line (or the following ones): anchored ones, then cheap ones
                pids = sorted(set(hits.get(str(line), []) or near) | (set(pids) if not near else set()),
                              key=lambda p: (p not in files.get(name, []), COST.get(p, 30)))[:5]
                if not hits.get(str(line)):
                    res['uncovered'] = True
            for pid in pids:
                cmdline = ('mount --bind %s/verif /verif; mount --bind %s/repo /repo; cd /verif; '
                           'VERIF_JOBS=1 VERIF_FAILFAST=1 VERIF_LIMIT=1200 timeout 1200 ./check.sh '
                           '%s quick' % (slot, slot, pid))
                proc = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmdline],
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                if proc.returncode != 0:
                    verdict = 'killed %s rc=%d' % (pid, proc.returncode)
                    break
            res.update(verdict=verdict, seconds=round(time.time() - t0, 1))
        finally:
            open(target, 'w').write(orig)
            slots.put(slot)
        lock.put(1)
        with open(out, 'a') as handle:
            handle.write(json.dumps(res) + '\n')
        if lock.qsize() % 50 == 0:
            print(lock.qsize(), round(time.time() - start), flush=True)

    with ThreadPoolExecutor(nproc) as pool:
        list(pool.map(work, jobs))
    for i in range(nproc):
        shutil.rmtree('/tmp/mutslot%d' % i, ignore_errors=True)


main()
