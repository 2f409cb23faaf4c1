#!/bin/bash
# Compiles demo.cc against the built library of the repository in the current
# directory and runs it: exit 0 when the guarantee holds.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${DEMO_REPO:-$(pwd)}"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
absl=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -v flags | sed 's#.*/lib#-l#; s#\.so$##')
extra=""
[ -f "$here/extra_flags" ] && extra="$(sed "s#@REPO@#$repo#g; s#@HERE@#$here#g" "$here/extra_flags")"
/usr/bin/g++ -O1 -w -std=gnu++17 -pthread -DNDEBUG -DBOOST_IOSTREAMS_DYN_LINK -DBOOST_IOSTREAMS_NO_LIB \
  -DGFLAGS_IS_A_DLL=0 -DGLOG_CUSTOM_PREFIX_SUPPORT -DUSE_PROMETHEUS=1 \
  -I"$repo" -I"$repo/_build" -isystem /usr/include/eigen3 -isystem /usr/include/lua5.2 \
  "$here/demo.cc" $extra "$repo/_build/libcartographer.a" \
  -lceres -lglog -lgflags -llua5.2 -lboost_iostreams -lcairo -lprotobuf $absl -lz -lpthread \
  -lprometheus-cpp-core -lprometheus-cpp-pull \
  -o "$scratch/demo" || { echo "demo did not compile"; exit 77; }
cd "$scratch"
GLOG_minloglevel=2 timeout 120 "$scratch/demo"
