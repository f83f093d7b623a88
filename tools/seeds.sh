#!/bin/bash
# tools/seeds.sh "C19 C20" "1 2 3": runs checks over several seeds, prints what is not OK
cd "$(dirname "$0")/.."
for s in $2; do for p in $1; do VERIF_SEED=$s timeout 900 python3 run.py check $p > /tmp/seedrun.$$ 2>&1 || { echo "## $p seed $s"; head -c 1500 /tmp/seedrun.$$; }; grep -h ^OK /tmp/seedrun.$$ | tail -1; done; done
rm -f /tmp/seedrun.$$
