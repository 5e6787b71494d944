#!/bin/bash
# every trial file of trials/, six at a time; one line per file
cd "$(dirname "$0")/.."
ls trials/*.txt | grep -v plants | xargs -P 6 -I{} sh -c 'timeout 3000 python3 tools/trial.py {} > /tmp/t_$(basename {} .txt).log 2>&1'
for f in $(ls trials/*.txt | grep -v plants); do n=$(basename $f .txt); echo "$n: $(tail -1 /tmp/t_$n.log | cut -c1-150)"; done
