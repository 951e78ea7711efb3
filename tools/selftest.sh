#!/bin/bash
# selftest.sh: executes the functions of harness/zzverif/hx symbolically; every
# path has to be encoded, and every assertion to hold.
V="$(cd "$(dirname "$0")/.." && pwd)"
bash "$V/setup.sh" >/dev/null || exit 2
cd "$V/engine"; rc=0
for f in $(sed -n 's/^func \([A-Z][A-Za-z0-9]*\)() {/\1/p' "$V"/harness/zzverif/hx/*.go); do
  o=$(GOSYM_VERIF="$V" timeout 200 ../bin/gosym run hx $f 2>&1)
  if echo "$o" | grep -qE 'UNSUPPORTED|CANDIDATE|INCONCLUSIVE' || ! echo "$o" | grep -q 'mismatches 0'; then echo "$f: $(echo "$o" | tail -4)"; rc=1; else echo "$f ok"; fi
done
exit $rc
