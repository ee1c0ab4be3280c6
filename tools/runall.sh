#!/bin/bash
cd /verif
ls=${*:-$(python3 -m checks --list 2>/dev/null)}
for c in $ls; do ( s=$(date +%s); python3 -m checks $c > /tmp/w/out.$c 2>&1; r=$?; echo "$c rc=$r $(( $(date +%s)-s ))s $(grep -c . /tmp/w/out.$c) $(tail -1 /tmp/w/out.$c | cut -c1-200)" ) & 
 while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.3; done
done; wait
