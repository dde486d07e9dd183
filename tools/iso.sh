#!/bin/bash
# iso.sh PATCH|- CMD... : runs CMD with /repo replaced by a patched copy and /verif by a copy (mount namespace; nothing real changes)
p=$1; shift; d=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo $d/repo; mkdir $d/verif; (cd /verif && cp -a $(ls -A | grep -vE '^(build|\.git|seeded)$') $d/verif/); mkdir -p $d/verif/build
[ "$p" = - ] || git -C $d/repo apply "$p" || { rm -rf $d; echo "patch does not apply"; exit 99; }
unshare -Urm bash -c 'mount --bind '$d'/repo /repo && mount --bind '$d'/verif /verif && cd /verif && exec "$@"' x "$@"; rc=$?
rm -rf $d; exit $rc
