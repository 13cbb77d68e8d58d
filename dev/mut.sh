#!/bin/sh
# mut.sh <seed id> <property>...: run checks on a planted bug
d=/tmp/seedwork/m-$1
rm -rf $d; cp -a /repo $d; (cd $d && git checkout -q -- . && git apply /verif/seeded/$1/patch.diff)
id=$1; shift
for p in "$@"; do echo "== $id $p"; (cd /verif && PYULOG_REPO=$d SA_EVIDENCE=/tmp/seedwork/ev SA_DEBUG=1 python3 check.py $p); done
rm -rf $d
