#!/bin/bash
# mut.sh "<sed/py edit command run in copy>" CHECK[,CHECK] [args]   -- try a scratch mutation against checks
set -u
D=${MUTDIR:-/tmp/mut}; rm -rf "$D/repo"; mkdir -p $D/repo
cp -a ${MUTBASE:-/repo}/include ${MUTBASE:-/repo}/src ${MUTBASE:-/repo}/fcontext $D/repo/
( cd $D/repo && eval "$1" ) || exit 9
diff -rq /repo/src $D/repo/src; diff -rq /repo/include $D/repo/include; diff -rq /repo/fcontext $D/repo/fcontext
shift
for p in ${1//,/ }; do
KV_REPO=$D/repo KV_BUILD=$D/build timeout 900 /verif/check.py $p "${@:2}" | grep -v "^  " | tail -${TAIL:-12}
done
