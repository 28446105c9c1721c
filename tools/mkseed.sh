#!/bin/bash
# tools/mkseed.sh <id> <prop> <pkgdir> : from an edited scratch copy /tmp/seedsrc (git worktree state), and stdin = demo_test.go
# Env: NEEDS, BREAKS.
id=$1; prop=$2; pkg=$3; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seedsrc diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty patch; exit 1; }
git -C /tmp/seedsrc checkout -q -- .
cat > $d/demo_test.go
more=
if [ -n "$BROKER" ]; then
 cp /verif/tools/fakebroker/broker_test.go $d/broker_test.go
 more=", \\\"\$repo/$pkg/zz_broker_test.go\\\": \\\"\$here/broker_test.go\\\""
fi
mod=${pkg%%/*}; sub=.${pkg#$mod}
cat > $d/demo.sh <<EOT
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$(pwd)
o=\$(mktemp /tmp/demo-XXXXXX.json)
echo "{\"Replace\": {\"\$repo/$pkg/zz_demo_test.go\": \"\$here/demo_test.go\"$more}}" > \$o
cd \$repo/$mod && timeout 200 go test -overlay \$o -vet=off -short -count=1 -timeout 150s -run '^TestZZDemo\$' $sub
rc=\$?
unlink \$o
exit \$rc
EOT
python3 - "$d" "$prop" <<'EOT'
import json,sys,os
json.dump(dict(property=sys.argv[2],needs=os.environ['NEEDS'],what_it_breaks=os.environ['BREAKS']),open(sys.argv[1]+'/meta.json','w'),indent=1)
EOT
/verif/tools/seed.sh $id
