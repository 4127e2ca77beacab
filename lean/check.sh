#!/bin/bash
# checks the Lean lemmas; prints OBLIGATIONS n when every theorem is accepted without sorry
out=$(lean "$(dirname "$0")/Probe.lean" 2>&1) || { echo "$out"; exit 1; }
echo "$out"
echo "$out" | grep -q "depends on axioms: \[propext, Classical.choice, Quot.sound\]" || exit 1
echo "$out" | grep -qi "sorry\|error" && exit 1
echo "OBLIGATIONS $(grep -c '^theorem' "$(dirname "$0")/Probe.lean")"
