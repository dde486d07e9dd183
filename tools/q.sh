#!/bin/bash
# run a check, condensed output
export VERIF_REPO=${VERIF_REPO:-$([ -d /tmp/wr ] && echo /tmp/wr || echo /repo)}; cd /verif; python3 tools/run.py "$@" 2>&1 | cut -c1-230 | awk '{k=$0; sub(/\[compile:[^]]*\]/,"[compile]",k); gsub(/basic_string<[a-z0-9_]*, [0-9]+/,"bs",k); if(!(k in s)){s[k]=1; print}}' | tail -${Q:-22}
