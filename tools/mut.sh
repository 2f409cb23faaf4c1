#!/bin/bash
# Development helper: a scratch copy of /repo (under /tmp/mut) to try planted bugs in.
#   mut.sh init | reset | test | check PROP [args] | demo DIR
set -u
M=${MUT:-/tmp/mut}
case "$1" in
  init)
    mkdir -p $M && cp -a /repo/. $M/ && rm -rf "$M/_build"
    cd $M && CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S $M -B $M/_build -G Ninja -DCMAKE_BUILD_TYPE=Release \
      -DCMAKE_CXX_FLAGS=-Wno-maybe-uninitialized -DBUILD_PROMETHEUS=ON -DBUILD_GRPC=OFF \
      -DCMAKE_DISABLE_FIND_PACKAGE_Sphinx=ON -DCMAKE_PROJECT_cartographer_INCLUDE=/opt/vp/scope.cmake -Wno-dev >/dev/null
    ninja -C $M/_build -j8 | tail -1 ;;
  reset) git -C $M checkout -q -- . ;;
  test)
    ninja -C $M/_build -j8 >$M.build 2>&1 || { tail -30 $M.build; echo BUILD-FAILED; exit 1; }
    ctest --test-dir $M/_build -j8 --timeout 300 2>&1 | grep -E 'tests passed|Failed|FAILED|Timeout' | grep -v 'Not Run' | head -20 ;;
  check)
    p=$2; shift 2
    VERIF_REPO=$M VERIF_BUILD=${M}b VERIF_EVIDENCE=${M}b/evidence python3 /verif/tools/check.py $p quick "$@" ;;
esac
