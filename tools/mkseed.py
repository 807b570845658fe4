"""Development tool: build seeded/<id>/ from a spec module (list SEEDS of dicts with id, property,
edits [(file, old, new)], needs, breaks, demo (python text))."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export QISKIT_PARALLEL=FALSE QISKIT_IN_PARALLEL=TRUE OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
S=$(mktemp -d) || exit 99
export HOME=$S SCRATCH=$S
trap 'rm -rf -- "$S"' EXIT
/opt/venv/bin/python -W ignore "$D/demo.py"
'''
spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
only = sys.argv[2:]
for s in mod.SEEDS:
    if only and s['id'] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
    for fname, old, new in s['edits']:
        path = tmp + '/r/qiskit/ignis/' + fname
        text = open(path).read()
        # blank lines of the source need not be written in the spec
        pat = re.compile(r'\n(?:[ \t]*\n)*'.join(map(re.escape, old.split('\n'))))
        assert len(pat.findall(text)) == 1, (s['id'], len(pat.findall(text)), old)
        open(path, 'w').write(pat.sub(lambda _: new, text))
    diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff']).decode()
    out = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(HEAD)
    open(out + '/demo.py', 'w').write(s['demo'].lstrip())
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    print(s['id'])
