"""Run the stable tests of /repo and compare with the baseline."""
import json
import subprocess
import sys
OUT = '/tmp/basetests.json'
subprocess.run(['bash', '/opt/vp/test.sh', OUT], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
base = json.load(open('/opt/vp/BASELINE.json'))
got = json.load(open(OUT))
def passed(d):
    for k in ('stable', 'stable_passed', 'passed', 'tests'):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [t for t in v if v[t] in ('passed', True)])
    print(list(d)); sys.exit(3)
miss = passed(base) - passed(got)
print('baseline', len(passed(base)), 'missing', sorted(miss))
sys.exit(1 if miss else 0)
