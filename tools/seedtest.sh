#!/bin/bash
# seedtest.sh ID...: in a scratch copy, confirm that a seeded bug builds, passes the stable tests, and that its demo tells it apart; then run its check
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedwork; mkdir -p $W
B=$W/build
for id in "$@"; do
  rm -rf $W/src; mkdir -p $W/src; git -C ${SRC:-/repo} archive HEAD | tar -x -C $W/src
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -r $S $W/demo
  if [ -z "$NODEMO" ]; then (cd $W/src && bash $W/demo/demo.sh >$W/d0.log 2>&1); d0=$?; fi
  (cd $W/src && git apply --unsafe-paths $S/patch.diff) || echo "$id: PATCH FAILS"
  if [ -z "$NODEMO" ]; then
  (cd $W/src && bash $W/demo/demo.sh >$W/d1.log 2>&1); d1=$?
  cmake -S $W/src -B $B -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DSCALOPUS_USE_EXTERNAL_JSON=ON -DSCALOPUS_USE_EXTERNAL_PYBIND=ON -DCMAKE_DISABLE_FIND_PACKAGE_pybind11=ON -DCMAKE_PROJECT_Scalopus_INCLUDE=/opt/vp/cmake/offline.cmake >$W/cm.log 2>&1 && ninja -C $B -k 0 >$W/b.log 2>&1; b=$?
  LTTNG_UST_REGISTER_TIMEOUT=0 ctest --test-dir $B --timeout 60 -E '^(test_native_tracing_macros|test_tracepoint_native_tracepoints)$' >$W/t.log 2>&1; t=$?
  fi
  if [ -z "$NOCHECK" ]; then
  VERIF_REPO=$W/src VERIF_BUILD=/tmp/mutbuild python3 $V/check.py $P >$W/c.log 2>&1; c=$?
  fi
  rm -rf $W/demo
  echo "$id $P: demo clean=$d0 (want 0) demo bug=$d1 (want !=0) build=$b tests=$t check=$c (want 1) $(grep -m1 VIOLATION $W/c.log)"
done
