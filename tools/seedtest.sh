#!/bin/bash
# tools/seedtest.sh SEED [CHECK...]: confirm a planted bug (build, stable tests, demonstration) and run checks against it,
# in scratch copies that are bind-mounted over /repo and /verif in a private mount namespace.
set -u
S=$1; shift; D=/verif/seeded/$S
if [ -z "${IN_NS:-}" ]; then
  W=$(mktemp -d /tmp/seed.XXXXXX); mkdir -p $W/v; cp -a /repo $W/repo; tar -C /verif --exclude=./replays --exclude=./evidence -cf - . | tar -C $W/v -xf -
  IN_NS=1 W=$W unshare -m bash "$0" "$S" "$@"; rc=$?; rm -rf "$W"; exit $rc
fi
mount --bind $W/repo /repo; mount --bind $W/v /verif
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W/demo; cp -r $D/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >$W/b.log 2>&1
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1); r0=$?
git apply $D/patch.diff || { echo "$S: PATCH DOES NOT APPLY"; exit 2; }
bash /opt/vp/test.sh $W/out.json >$W/t.log 2>&1 || { echo "$S: BUILD/TEST FAILED"; tail -5 $W/t.log; exit 2; }
M=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/out.json'));m=sorted(set(b['stable'])-set(o['passed']));print(len(m),m[:4])")
(cd /repo && timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1); r1=$?
ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "${M%% *}" = 0 ] && ok=ok
echo "$S ($P): $ok demo clean=$r0 patched=$r1 stable-missing=$M"
[ $r0 != 0 ] && tail -5 $W/d0.log
[ $ok = BAD ] && [ -z "${FORCE:-}" ] && { tail -5 $W/d1.log; }
[ $# = 0 ] && set -- $P
cd /verif
for c in "$@"; do
  s=$(date +%s); ./run.sh $c quick >$W/c.log 2>&1; rc=$?
  echo "   check $c: exit $rc, $(( $(date +%s) - s )) s, $(grep -c '^VIOLATION' $W/c.log) violations; $(grep -A2 -m1 '^VIOLATION' $W/c.log | tail -2 | tr '\n' ' ' | cut -c1-220)"
  [ $rc != 0 ] && [ $rc != 1 ] && tail -5 $W/c.log
done
exit 0
