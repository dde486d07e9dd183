#!/bin/bash
# trybug.sh ID... : runs the check of each seeded bug's property against it, in isolation
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
t0=$(date +%s); o=$(/verif/tools/iso.sh /verif/seeded/$i/patch.diff python3 tools/run.py $p ${TIER:+--tier $TIER} 2>&1); rc=$?
if [ $rc = 1 ] && echo "$o" | grep -q "VIOLATION property=$p"; then r=caught; else r="MISSED rc=$rc"; fi; echo "$i $p $r $(( $(date +%s)-t0 ))s"; done
