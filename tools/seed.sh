#!/bin/bash
# seed.sh ID [CHECK...]: validates /verif/seeded/ID in scratch copies and runs the checks (default: its property's).
id="$1"; shift
s=/verif/seeded/$id
prop=$(jq -r .property "$s/meta.json")
[ $# = 0 ] && set -- "$prop"
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf -- "$w"' EXIT
git clone -q /repo "$w/r" && cd "$w/r" || exit 2
if [ -z "$SKIP_DEMO" ]; then
  bash "$s/demo.sh" >"$w/d0" 2>&1; r0=$?
  [ $r0 = 0 ] || { echo "$id: demo fails on the unchanged tree ($r0)"; tail -20 "$w/d0"; }
fi
git apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
if [ -z "$SKIP_DEMO" ]; then
  CARGO_TARGET_DIR=/tmp/seedtarget cargo test --offline --quiet >"$w/t" 2>&1; rt=$?
  [ $rt = 0 ] || { echo "$id: existing tests fail"; grep -E 'failed|error' "$w/t" | head; }
  bash "$s/demo.sh" >"$w/d1" 2>&1; r1=$?
  [ $r1 != 0 ] || echo "$id: demo passes with the patch"
  grep -qE '^error\[' "$w/d1" && { echo "$id: demo does not compile"; grep -A6 -E '^error\[' "$w/d1" | head -30; }
fi
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ /tmp/vw/
for k in "$@"; do
  a=$(date +%s); VERIF_REPO="$w/r" /tmp/vw/check "$k" >"$w/c" 2>&1; rc=$?
  echo "$id $k rc=$rc $(( $(date +%s) - a ))s demo=$r0/$r1 tests=$rt $(grep -m1 VIOLATION "$w/c" | cut -c1-60) :: $(grep -v '^case' "$w/c" | head -1 | cut -c1-140)"
done
