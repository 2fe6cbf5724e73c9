#!/bin/bash
# seedtest.sh <id>... : for each seeded bug, in a private copy of /repo mounted
# at /repo in a mount namespace: demo clean / build / stable tests / demo
# patched / the property's quick check.
V=/verif
one() {
  id=$1; W=$(mktemp -d /tmp/seedtest.XXXXXX)
  cp -a /repo "$W/repo"
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  mkdir "$W/d" "$W/build"; cp $V/seeded/$id/demo* "$W/d/"
  mkdir "$W/v"; (cd $V && tar c --exclude=build --exclude=.git --exclude=replays --exclude=evidence --exclude=seeded .) | tar x -C "$W/v"; mkdir "$W/v/replays" "$W/v/evidence"
  unshare -Urm bash -c "
    mount --bind $W/repo /repo && cd /repo || exit 9
    if [ -z \"\$NOCLEAN\" ]; then bash /opt/vp/build.sh >$W/b0.log 2>&1; bash $W/d/demo.sh >$W/demo0.log 2>&1; echo demo_clean=\$? >>$W/res; fi
    git apply $V/seeded/$id/patch.diff || { echo apply=fail >>$W/res; exit 9; }
    if [ -z \"\$NOTEST\" ]; then bash /opt/vp/test.sh $W/t.json >$W/b.log 2>&1; python3 - <<P >>$W/res
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
print('stable_missing=%s' % [x for x in b['stable'] if x not in t['passed']])
P
    else bash /opt/vp/build.sh >$W/b.log 2>&1 || echo build=fail >>$W/res; fi
    bash $W/d/demo.sh >$W/demo1.log 2>&1; echo demo_patched=\$? >>$W/res
    cd $W/v; VERIF_BUILD=$W/build ./check $prop \${TIER:-quick} >$W/check.log 2>&1; echo check=\$? >>$W/res
  "
  echo "$id $prop $(tr '\n' ' ' <$W/res) | $(grep -m1 -E 'failing case|VIOLATION|FAILED' $W/check.log | cut -c1-220) | $(tail -1 $W/demo1.log | cut -c1-100)"
  [ -n "$KEEP" ] || rm -rf "$W"
}
export -f one; export V
printf '%s\n' "$@" | xargs -P ${P:-3} -I{} bash -c 'one {}'
