#!/bin/bash
# tools/catch.sh [ID...]: does the check of each planted bug's property catch it?
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(sed -n 's/.*"property": "\(...\)".*/\1/p' seeded/$i/meta.json)
  r=$(tools/mutant.sh "$PWD/seeded/$i/patch.diff" $p 2>&1)
  if grep -q "^VIOLATION property=$p" <<<"$r"; then echo "caught $i by $p: $(grep -o "[0-9]* seeds, .* runs" <<<"$r" | head -1) $(grep "^$p [a-z]" <<<"$r" | head -1 | cut -c1-110)"; else echo "MISSED $i by $p: $(tail -1 <<<"$r" | cut -c1-200)"; fi
done
