#!/bin/bash
# tools/seed.sh <id> : confirm /verif/seeded/<id> in a scratch copy of /repo and run its property's check on it.
# NOCHECK=1 skips the check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/seedwt-$id-$$
cp -a /repo $w
fail(){ echo "$id: REJECT $*"; rm -rf "$w"; exit 2; }
chk(){ # run repo tests in copy
 (cd $w/streams && go test -short -count=1 ./... >$w.out 2>&1 || { grep -E '^(---|FAIL|panic|.*\.go:[0-9]+:[0-9]+)' $w.out|head -5; exit 1; }) && (cd $w/msk && go build ./... >>$w.out 2>&1)
}
(cd $w && bash $d/demo.sh >$w.demo 2>&1) || { tail -5 $w.demo; fail "demo fails on clean tree"; }
git -C $w apply $d/patch.diff || fail "patch does not apply"
chk || fail "tests"
if (cd $w && timeout 300 bash $d/demo.sh >$w.demo 2>&1); then fail "demo passes with patch"; fi
if [ -z "$NOCHECK" ]; then
 VERIF_REPO=$w timeout 900 /verif/check.sh $prop >$w.chk 2>&1; rc=$?
 v=$(grep -m1 "^VIOLATION property=$prop" $w.chk)
 if [ $rc = 1 ] && [ -n "$v" ]; then echo "$id: $prop CAUGHT: $(grep -m1 -i 'violat.*:' $w.chk | cut -c1-160)"; else echo "$id: $prop MISSED rc=$rc"; tail -3 $w.chk; fi
else echo "$id: ok (not checked)"; fi
rm -rf "$w" "$w.out" "$w.demo" "$w.chk"
