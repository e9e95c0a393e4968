#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo, and with -c run the check of the property.
check=
[ "$1" = -c ] && { check=1; shift; }
for id in "$@"; do
  s=/verif/seeded/$id; t=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$t/repo"; cd "$t/repo" || exit 1
  bash "$s/demo.sh" >"$t/log0" 2>&1; a=$?
  git apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  . /opt/vp/env.sh; go build ./... >"$t/logb" 2>&1; b=$?
  go test ./... >"$t/logt" 2>&1; u=$?
  bash "$s/demo.sh" >"$t/log1" 2>&1; d=$?
  ok=BAD; [ $a = 0 ] && [ $b = 0 ] && [ $u = 0 ] && [ $d != 0 ] && ok=ok
  echo "$id: $ok demo-before=$a build=$b tests=$u demo-after=$d"
  [ $ok = BAD ] && { tail -n 8 "$t/log0" "$t/logb" "$t/log1"; grep -v "^ok\|no test files" "$t/logt" | head -20; }
  if [ -n "$check" ] && [ $ok = ok ]; then
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    REPO="$t/repo" VERIF_EVIDENCE=$t timeout 900 /verif/.bin/govc check -verif /verif -repo "$t/repo" -property "$p" -tier quick -seed 1 2>&1 | cut -c1-200 | tail -3
  fi
  cd /; rm -rf "$t"
done
