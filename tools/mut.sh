#!/bin/bash
# tools/mut.sh PROP FILE 'sed-expression' [check args]: run a check against a scratch copy of /repo with one edit
P=$1; F=$2; S=$3; shift 3
D=$(mktemp -d /tmp/mut.XXXXXX)
git -C ${SRC:-/repo} archive HEAD | tar -x -C $D
[ -n "$F" ] && { cp $D/$F $D/orig.txt; sed -i "$S" $D/$F; diff $D/orig.txt $D/$F | grep '^[<>]' || echo "NO CHANGE"; }
VERIF_REPO=$D VERIF_BUILD=/tmp/mutbuild python3 $(dirname $0)/../check.py $P "$@" 2>&1 | tail -${TAIL:-6}
rm -rf "$D"
