#!/bin/sh
# every module must parse (names of different modules may clash)
cd "$(dirname "$0")/../spec" || exit 2
bad=0
for m in MC Trace Lin Persist Evict Auth Record Ring RingMC; do
  out=$(tla-sany $m.tla 2>&1) || { echo "$m: $out" | grep -v '^Parsing\|^Semantic processing' | head -5; bad=1; }
  echo "$out" | grep -q 'Abort\|\*\*\* Errors' && { echo "$m: $out" | grep -A4 'Errors'; bad=1; }
done
exit $bad
