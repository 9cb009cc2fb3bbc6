#!/bin/bash
# Run the quick tier of every check with given seeds: tools/runall.sh "1 2 3" [jobs] [checks...]
cd "$(dirname "$0")/.."
seeds=${1:-1}; jobs=${2:-3}; shift 2
props=${*:-$(seq -f 'C%02g' 1 99)}
for s in $seeds; do for p in $props; do
  [ -f pbt/props/$(echo $p | tr A-Z a-z).py ] && echo "$s $p"
done; done | xargs -P "$jobs" -L1 bash -c 'out=$(VERIF_SEED=$0 timeout 900 /opt/venv/bin/python -m pbt.run $1 quick 2>&1); echo "seed $0 rc=$? $(echo "$out" | grep -E "^(OK|VIOLATION|KNOWN|\[)" | tail -3 | cut -c1-300 | tr "\n" " ")"'
