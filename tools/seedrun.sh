#!/bin/bash
# usage: seedrun.sh ID [--tests] [--check CNN ...]   (development tool: plants seeded/ID in a private
# mount namespace, so that neither /repo nor /verif is touched)
ID=$1; shift
TESTS=0; CHECKS=()
while [ $# -gt 0 ]; do case $1 in --tests) TESTS=1;; *) CHECKS+=("$1");; esac; shift; done
S=/verif/seeded/$ID
[ ${#CHECKS[@]} -eq 0 ] && CHECKS=($(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"))
T=$(mktemp -d /tmp/seedrun-XXXXXX)
git clone -q /repo $T/repo; mkdir $T/work
mkdir $T/verif; (cd /verif; tar c --exclude=seeded --exclude=evidence --exclude=out --exclude=.git .) | tar x -C $T/verif
cat > $T/run.sh <<X
mount --bind $T/repo /repo; mount --bind $T/work /opt/vp/work; mount --bind $T/verif /verif || exit 9
cp -a $T/demo $T/demo2 2>/dev/null
cd /repo
timeout 300 bash $T/demo/demo.sh >$T/d0 2>&1; echo "$ID demo clean rc=\$?"
git apply $T/p.diff || { echo "$ID APPLY FAILED"; exit 1; }
timeout 300 bash $T/demo/demo.sh >$T/d1 2>&1; echo "$ID demo patched rc=\$? \$(tail -1 $T/d1 | cut -c1-150)"
if [ $TESTS = 1 ]; then echo "$ID tests: \$(cd /verif && python3 tools/basetests.py)"; bash /opt/vp/build.sh >/dev/null 2>&1; echo "$ID build rc=\$?"; fi
for c in ${CHECKS[@]}; do
 cd /verif; timeout 900 ./check.sh \$c quick > $T/o 2>$T/e; rc=\$?; echo "$ID check \$c rc=\$rc \$(grep VIOLATION $T/o | head -1)"
 [ \$rc = 1 ] && python3 - <<Y
import json,glob
for f in sorted(glob.glob('/verif/out/\$c-*.json'))[:1]:
    d=json.load(open(f)); print('     ', {k:str(d[k])[:160] for k in d if k in ('case','clause','message')})
Y
done
X
cp -a $S $T/demo; cp $S/patch.diff $T/p.diff; rm -f $T/demo/patch.diff $T/demo/meta.json
sed -i "s#OUT = .*#OUT = '$T/basetests.json'#" $T/verif/tools/basetests.py
unshare -Urm bash $T/run.sh
rm -rf -- "$T"
