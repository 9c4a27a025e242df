#!/bin/bash
# plant.sh ID...   confirm planted bugs in scratch copies of /repo and /verif bound over the real ones in a private
# mount namespace: clean demo, build, stable tests, demo with the patch, the property's check.  NOTEST=1 skips tests.
for id in "$@"; do
  W=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo $W/repo; cp -a /verif $W/verif; mkdir $W/demo; cp /verif/seeded/$id/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  PID=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
    git -C /repo checkout -q -- .
    bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo \"$id demo clean: \$?\"
    git apply /verif/seeded/$id/patch.diff || { echo '$id PATCH FAILS'; exit; }
    bash /opt/vp/build.sh >$W/build.log 2>&1 || echo '$id BUILD FAILS'
    bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo \"$id demo patched: \$?\"
    if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
    python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
print('$id missing stable:',sorted(set(b['stable'])-set(o['passed']))[:5])\"; fi
    cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $PID >$W/check.log 2>&1; echo \"$id check $PID: \$?\"; grep -v '^KNOWN' $W/check.log | tail -3 | cut -c1-300
  "
  cp $W/demo1.log /tmp/plant_$id.demo1.log; cp $W/demo0.log /tmp/plant_$id.demo0.log
  rm -rf "$W"
done
