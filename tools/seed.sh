#!/bin/bash
# seed.sh save ID   : diff of /tmp/wt (a copy of /repo with a planted bug) -> seeded/ID/patch.diff, confirm build, tests, demo
# seed.sh check ID PROP [tier] : apply to /repo, run the check, undo
V=/verif; W=/tmp/wt; id=$2; S=$V/seeded/$id
case $1 in
save)
  cd $W || exit 1
  git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
  [ -f $S/demo.sh ] || cp $V/tools/demo.sh $S/demo.sh; chmod +x $S/demo.sh
  cargo test --workspace --no-run --offline >/tmp/wt.b 2>&1 || { grep -E "^error" -A6 /tmp/wt.b; exit 1; }
  rm -rf /tmp/rust /tmp/rust_test /tmp/simple.root /tmp/o.json; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/wt.t 2>&1; python3 /opt/vp/results.py /tmp/o.json cargo:/tmp/wt.t >/dev/null
  m=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));print(len(set(b.get('passed') or b.get('stable') or b.get('tests'))-set(json.load(open('/tmp/o.json'))['passed'])))"); [ "$m" = 0 ] || { echo "TESTS FAILED: $m"; exit 1; }
  (cd $W && timeout 300 bash $S/demo.sh >/tmp/demo.p 2>&1); p=$?
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/demo.u 2>&1); u=$?
  echo "patched rc=$p"; tail -3 /tmp/demo.p; echo "unchanged rc=$u"; tail -3 /tmp/demo.u
  [ $p != 0 ] && [ $u = 0 ] && { git checkout -q -- .; echo "KEPT $id"; };;
check)
  git -C /repo apply $S/patch.diff || exit 1
  trap 'git -C /repo checkout -q -- .' EXIT
  cd $V; ./run check $3 ${4:-quick} > /tmp/seed.$id.$3.log 2>&1; echo "$id $3 rc=$?"; grep -E "^VIOLATION" /tmp/seed.$id.$3.log | head -2;;
esac
