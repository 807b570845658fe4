"""Summarise the violations recorded in out/<ID>-*.json by clause and message."""
import collections
import glob
import json
import sys
seen = collections.OrderedDict()
for f in glob.glob('/verif/out/%s-*.json' % sys.argv[1]):
    d = json.load(open(f))
    for v in [d] + d.get('others', []):
        k = (v.get('clause'), str(v.get('message'))[:int(sys.argv[2]) if len(sys.argv) > 2 else 110])
        seen.setdefault(k, []).append(str(v.get('case'))[:160])
for k, v in seen.items():
    print(len(v), k, v[:2])
