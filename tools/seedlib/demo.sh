#!/bin/bash
# exit 0: the property holds; run in the library's directory after it was built
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
b=$r/_build/default
g++ -std=c++17 -g -w -DJNI_DEBUG -DEnableJNIVMGC -I"$r/include" "$d/demo.cpp" -o "$t/demo" $b/libbaron.a $b/libfake-jni.a $b/libjnivm.a -ldl -lpthread || exit 3
cd "$t"
timeout 60 ./demo > out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
