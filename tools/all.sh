#!/bin/bash
# usage: all.sh seed
export VERIF_SEED=${1:-1} VERIF_TIER=${2:-quick}
cd /verif
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17; do
 s=$(date +%s); ./run.sh C$i > /tmp/o.$i 2>&1; r=$?
 echo "C$i rc=$r $(( $(date +%s)-s ))s $(tail -1 /tmp/o.$i | cut -c1-160)"
done
