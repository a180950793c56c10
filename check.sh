#!/bin/bash
# ./check.sh Cxx            run the check of one property against /repo's working tree
# ./check.sh replay Cxx SEED CASE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. tools/env.sh
id=$1
[ "$id" = replay ] && id=$2
bin=harness/target/debug/prmon
if [ "$id" = C05 ]; then
    bin=harness/target/debug/prmon5
    tools/build.sh 5
    rc=$?
    if [ $rc = 1 ]; then
        # the library and the builder compile, what they generate does not
        mkdir -p replays
        { cat harness/target/debug/build/prmon5-*/out/failed.txt; grep -E '^(error|warning: unused)' -A12 harness/target/build5.log; } > replays/C05-build.txt 2>/dev/null
        echo "VIOLATION property=C05 replay=$PWD/replays/C05-build.txt generated code does not compile: $(grep -m1 . replays/C05-build.txt)"
        exit 1
    fi
    [ $rc = 0 ] || { echo "the harness does not build against /repo"; exit 2; }
else
    arg=
    [ "$id" = C30 ] && arg=30
    tools/build.sh $arg || { echo "the harness does not build against /repo"; exit 2; }
fi
if [ "$1" = replay ]; then
    exec $bin "$@"
fi
exec $bin run "$1"
