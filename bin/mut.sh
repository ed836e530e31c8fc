#!/bin/bash
# developer aid: mut.sh ID FILE SED-EXPRESSION [FN]: run a check on a temporarily mutated /repo (never while vcheck copies it)
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
f=programs/mango-v4/src/$2; sed -i -E "$3" $f
if [ -z "$(git status --short)" ]; then echo "NO CHANGE: $3"; exit 1; fi
git diff -U0 | grep '^[+-][^+-]' | cut -c1-150
timeout 900 python3 /verif/bin/check.py $1 ${4:+--fn $4} 2>&1 | grep -a "VIOL\|ERROR\|^OK" | grep -v "^  " | sed 's/replay=.*replay.//' | cut -c1-150
git checkout -q -- .
