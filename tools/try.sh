#!/bin/bash
# try.sh ID [CHECK...]: runs the checks (default: its property's) on a scratch
# copy of /repo with the planted bug ID.
set -u
ID=$1; shift
S="$(mktemp -d /tmp/tryXXXXXX)"; trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/r"
git -C "$S/r" apply "/verif/seeded/$ID/patch.diff" || exit 2
P=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$ID/meta.json)
for c in ${*:-$P}; do
  GOSYM_REPO="$S/r" bash /verif/check.sh $c quick >"$S/out" 2>&1; r=$?
  echo "$ID: check $c exit $r $(grep -m1 -A3 -E '^VIOLATION' "$S/out" | cut -c1-240 | head -3)"
done
