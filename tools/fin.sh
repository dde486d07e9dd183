#!/bin/bash
# seeds 2,3 + thorough, then regenerate and commit
cd /verif
for id in "$@"; do for s in 2 3; do python3 tools/run.py $id --seed $s | grep -a "VIOLATION\|KNOWN\|HARNESS" ; done; python3 tools/run.py $id --tier thorough | tail -3 | cut -c1-300; done
python3 tools/props.py > /dev/null; git add -A; git commit -qm "check $*"; git status --short | head -3
