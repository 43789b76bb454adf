#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what" : run in a scratch copy /tmp/seed/repo (cp -a of /repo) holding the change; demo test in /tmp/seed/demo_test.go
set -e
ID=$1; PROP=$2; NEEDS=$3; WHAT=$4
. /opt/vp/env.sh
D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/seed/repo diff > $D/patch.diff
test -s $D/patch.diff
cp /tmp/seed/demo_test.go $D/demo_test.go
cat > $D/demo.sh <<'EOS'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 200 go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestDemo$' .
EOS
grep -q mockey $D/demo_test.go && sed -i 's/-vet=off/-vet=off -gcflags="all=-N -l"/' $D/demo.sh
chmod +x $D/demo.sh
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'EOP'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
EOP
ok=1
(cd /repo && bash $D/demo.sh >/tmp/seed/clean.log 2>&1) || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/seed/clean.log; ok=0; }
git -C /repo apply $D/patch.diff
trap 'git -C /repo checkout -- .' EXIT
(cd /repo && go build ./... ) || { echo "NO BUILD"; ok=0; }
bash /verif/tools/stable.sh | grep -q "set()" || { echo "TESTS FAIL"; bash /verif/tools/stable.sh; ok=0; }
if (cd /repo && bash $D/demo.sh >/tmp/seed/bug.log 2>&1); then echo "DEMO PASSES WITH BUG"; ok=0; fi
grep -m3 "demo_test.go\|panic" /tmp/seed/bug.log | cut -c1-200
if [ $ok = 0 ]; then mkdir -p /tmp/seed/bad; mv $D /tmp/seed/bad/$ID.$$; echo "REJECTED"; exit 1; fi
set +e
for p in $PROP $5; do timeout 900 python3-vt /verif/check.py $p quick 2>&1 | tail -4 | cut -c1-260; done
git -C /tmp/seed/repo checkout -- .
