#!/bin/bash
# run.sh TIER IDS... : run several checks one after another, short output
t=$1; shift
for p in "$@"; do timeout 1000 python3 check.py $p $t 2>&1 | cut -c1-600 | tail -${TAILN:-14}; echo "== $p exit ${PIPESTATUS[0]}"; done
