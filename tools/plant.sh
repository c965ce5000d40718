#!/bin/bash
# plant.sh <id>...: completes seeded/<id> (patch.diff, main.rs, meta.json are written by hand) with the shared demo files and
# confirms it: demo passes on the clean tree, stable tests pass and the demo fails with the patch; then runs the property's quick check
V=$(cd "$(dirname "$0")/.." && pwd)
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
  S=$V/seeded/$i
  cp $V/tools/demo/{demo.sh,manifest.toml} $S/; cp $V/harness/Cargo.lock $S/lock; cp $V/harness/src/{fix,craft}.rs $S/
  cp $V/models/askar-crypto/src/lib.rs $S/askar.rs; cp $V/models/askar-crypto/Cargo.toml $S/askar.toml
  rm -rf $S/standins
  if grep -q didcomm_js $S/main.rs; then cp $V/tools/demo/manifest-js.toml $S/manifest.toml; cp -r $V/standins $S/standins; fi
  if grep -q didcomm_uniffi $S/main.rs; then cp $V/tools/demo/manifest-ffi.toml $S/manifest.toml; cp -r $V/standins $S/standins; fi
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /repo; bash $S/demo.sh > /tmp/plant.log 2>&1; a=$?; [ $a = 0 ] || { echo "$i: demo fails on the clean tree ($a)"; tail -5 /tmp/plant.log; continue; }
  git apply $S/patch.diff || { echo "$i: does not apply"; continue; }
  if bash /opt/vp/build.sh > /tmp/plant.log 2>&1; then
    bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1
    t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant.json'))
print('tests',str(o)[:0],'|'.join(sorted(set(map(str,o.get('failed',[])))))or 'ok')")
  else t="BUILD FAILS"; fi
  bash $S/demo.sh > /tmp/plant.demo 2>&1; b=$?
  c=$(cd $V; python3 check.py ${CHECK:-$P} --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i ($P): $t demo $a -> $b; check rc=$rc $(echo "$c" | grep -c VIOLATION) violations"; tail -1 /tmp/plant.demo | cut -c1-150
  [ $rc = 1 ] || echo "$c" | tail -12
done
