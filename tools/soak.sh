#!/bin/bash
# run checks over a range of seeds: soak.sh FROM TO [IDs...]
a=$1; b=$2; shift 2
ids=${*:-$(seq -f 'C%02g' 1 25)}
for s in $(seq $a $b); do for i in $ids; do
 o=$(VERIF_SEED=$s /opt/venv/bin/python check.py $i 2>&1) || echo "seed=$s $i: $(echo "$o" | grep -v KNOWN | head -6 | cut -c1-500)"
done; done
