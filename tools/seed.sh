#!/bin/bash
# seed.sh ID PROPERTY FILE NEEDS BREAKS [CHECKS...]: turns the changes made in
# /tmp/seedrepo into the planted bug ID, with the demonstration test FILE
# (its first line names the package directory: "// pkg: ./book"), and confirms
# that it builds, passes the tests, and that its demonstration fails with it and
# passes without. Then runs the checks (default: the property's) on it.
set -u; trap "git -C /tmp/seedrepo checkout -q -- ." EXIT
ID=$1 PROP=$2 DEMO=$3 NEEDS=$4 BREAKS=$5; shift 5
S=/tmp/seedrepo; O=/verif/seeded/$ID
mkdir -p "$O"
git -C $S diff >"$O/patch.diff"
[ -s "$O/patch.diff" ] || { echo "$ID: no change"; exit 1; }
PKG=$(sed -n '1s,// pkg: ,,p' "$DEMO")
[ "$DEMO" -ef "$O/demo_test.go" ] || cp "$DEMO" "$O/demo_test.go"
cat >"$O/demo.sh" <<XX
#!/bin/bash
# Runs demo_test.go inside $PKG of the repository in the current directory.
set -eu
D="\$(cd "\$(dirname "\$0")" && pwd)"
T="\$(mktemp -d)"
trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\": {\"\$PWD/$PKG/zz_demo_test.go\": \"\$D/demo_test.go\"}}" >"\$T/overlay.json"
GOPROXY=off timeout 240 go test -vet=off -count=1 -timeout 120s -overlay "\$T/overlay.json" -run '^TestZZDemo' $PKG
XX
python3 - "$PROP" "$NEEDS" "$BREAKS" >"$O/meta.json" <<'XX'
import json, sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1))
XX
cd $S
[ "$(git diff --name-only | grep -c _test.go)" = 0 ] || echo "$ID: TOUCHES TESTS"
go build ./book ./loader ./script ./cmd/accounts ./cmd/app ./cmd/currencies ./cmd/download ./cmd/export ./cmd/generate ./cmd/importer ./cmd/register ./cmd/reports ./cmd/utils || { echo "$ID: DOES NOT BUILD"; exit 1; }
go test -vet=off -count=1 ./book ./cmd/app >/tmp/seed.test 2>&1 || { echo "$ID: TESTS FAIL"; tail -20 /tmp/seed.test; }
bash "$O/demo.sh" >/tmp/seed.demo 2>&1 && { echo "$ID: DEMO PASSES WITH THE BUG"; }
grep -q 'build failed' /tmp/seed.demo && { echo "$ID: DEMO DOES NOT COMPILE"; cat /tmp/seed.demo; }
for c in ${*:-$PROP}; do
  GOSYM_REPO=$S bash /verif/check.sh $c quick >/tmp/seed.$c 2>&1; echo "$ID: check $c exit $? $(grep -c ^VIOLATION /tmp/seed.$c)"
  grep -m1 -E '^VIOLATION' /tmp/seed.$c | cut -c1-200
done
git checkout -q -- .; bash "$O/demo.sh" >/tmp/seed.demo0 2>&1 || { echo "$ID: DEMO FAILS WITHOUT THE BUG"; tail -20 /tmp/seed.demo0; }
