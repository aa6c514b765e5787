#!/bin/bash
# dev helper: stability of a unit's proof under other solver seeds (run b.sh UNIT first)
cd /verif/.build/out
for s in 1 2 3 4 5 6; do timeout 600 verus --triggers-mode silent $1.rs --smt-option smt.random_seed=$s 2>&1 | grep "^verification results"; done
