#!/bin/bash
# seed.sh <seeded dir>...: confirm planted bugs in a scratch copy of /repo ($W, default /tmp/seedw): the patch applies, the copy
# builds, the stable tests pass, demo.sh exits 0 on the unchanged tree and nonzero with the patch.
W=${W:-/tmp/seedw}
mkdir -p $W
for d in "$@"; do
 d=$(realpath $d); id=$(basename $d)
 rsync -a --delete --exclude target --exclude .git /repo/ $W/ || exit 1
 touch $W/src/lib.rs $W/ossl/src/lib.rs
 [ -d $W/target ] || cp -a /repo/target $W/target
 for s in build test env; do sed "s#/repo#$W#g; s#/opt/vp/env.sh#$W.env.sh#" /opt/vp/$s.sh > $W.$s.sh; done
 build() { bash $W.build.sh > $W.build.log 2>&1; }
 (cd $W; build) || { echo "$id: base does not build"; continue; }
 (cd $W; timeout 300 bash $d/demo.sh > $W.demo0.log 2>&1); r0=$?
 (cd $W; patch -p1 -s < $d/patch.diff) || { echo "$id: patch fails"; continue; }
 (cd $W; build) || { echo "$id: does not build"; tail -30 $W.build.log; continue; }
 (cd $W; timeout 300 bash $d/demo.sh > $W.demo1.log 2>&1); r1=$?
 t=-
 if [ -z "$NOTEST" ]; then
 (cd $W; bash $W.test.sh $W.o.json > $W.t.log 2>&1)
 t=$(python3 - $W.o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
def names(x): return set(x) if isinstance(x,(list,dict)) else set()
ok=names(o.get('passed')); print('missing:', sorted(names(st)-ok)[:8])
P
)
 fi
 echo "$id: demo base=$r0 patched=$r1 tests $t"; tail -2 $W.demo0.log | sed 's/^/   base: /'; tail -2 $W.demo1.log | sed 's/^/   bug:  /'
done
