#!/bin/bash
# Same seed, same execution: prints nothing but "same" lines if every run repeats exactly, twice in one order and once
# under load, for every property and build. Usage: tools/determinism.sh [runs per property] [properties...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-25}; shift
props=${*:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P16 P17}
nodes=$(for f in fallback full; do for p in release checked; do printf '%s,' "$PWD/target/$f/$p/libversim.so"; done; done)
d=$(mktemp -d); bad=0
for p in $props; do
  for c in fallback/release full/release fallback/checked full/checked; do
    for k in 1 2; do
      "target/$c/versim-bin" hashes --prop "$p" --n "$n" --seed 7 --nodes "${nodes%,}" >"$d/$k" 2>/dev/null &
    done
    wait
    if cmp -s "$d/1" "$d/2" && [ "$(wc -l <"$d/1")" = "$n" ]; then echo "same $p $c"; else echo "DIFFERENT $p $c"; bad=1; diff "$d/1" "$d/2" | head -4; fi
  done
done
rm -r "$d"; exit $bad
