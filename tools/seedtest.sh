#!/bin/bash
# seedtest.sh ID...: confirm planted changes in scratch copies of /repo: builds, stable tests pass, demo
# passes without and fails with the change, and which check reports it. Development aid; no check uses it.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; V=$2; sd=$V/seeded/$id; R=/tmp/sr_$id; VP=/tmp/vp_$id
  rm -rf "$R" "$VP"; cp -a /repo "$R"; mkdir -p "$VP"; cp -a /opt/vp/. "$VP"/
  git -C "$R" checkout -q -- . ; 
  grep -rlI '/repo\|/opt/vp' "$VP" | xargs sed -i "s#/repo#$R#g; s#/opt/vp#$VP#g"
  prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
  res="$id [$prop]:"
  (cd $R && bash $sd/demo.sh > $VP/demo0.log 2>&1) && res="$res demo0=ok" || res="$res demo0=BAD"
  git -C "$R" apply "$sd/patch.diff" || { echo "$res patch does not apply"; rm -rf "$R" "$VP"; return; }
  find $R/_build -name '*.d' | xargs sed -i "s#/repo/#$R/#g" 2>/dev/null
  if [ -z "$NOTEST" ]; then
    bash $VP/test.sh $VP/t.json > $VP/test.log 2>&1
    res="$res $(python3 -c "
import json
d=json.load(open('$VP/t.json')); b=json.load(open('/opt/vp/BASELINE.json')); x=sorted(set(b['stable'])-set(d['passed'])); print('tests=ok' if not x else 'tests=FAIL(%d %s)'%(len(x),x[:3]))")"
  fi
  (cd $R && timeout 300 bash $sd/demo.sh > $VP/demo1.log 2>&1) && res="$res demo1=PASSES(BAD)" || res="$res demo1=fails(ok)"
  if [ -z "$NOCHECK" ]; then
    (cd $V && VERIF_REPO=$R VERIF_EVID=$VP timeout 900 python3 run.py ${CHECKPROP:-$prop} > $VP/check.log 2>&1); rc=$?
    res="$res check_rc=$rc $(grep -c '^VIOLATION' $VP/check.log) violations: $(grep -A1 '^VIOLATION' $VP/check.log | sed -n 2p | cut -c1-160)"
  fi
  echo "$res"
  [ -n "$KEEP" ] || rm -rf "$R" "$VP"
}
export -f one
printf '%s\n' "$@" | xargs -P ${PAR:-1} -I{} bash -c "one {} $V"
