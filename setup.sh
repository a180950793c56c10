#!/bin/bash
cd "$(dirname "$(readlink -f "$0")")" || exit 2
tools/build.sh || exit 2
# for C05; the check itself reports if it cannot be built
tools/build.sh 5
# for C30; likewise
tools/build.sh 30
# sanitizer builds for C25; the check itself reports if one cannot be made
tools/san.sh tsan
tools/san.sh asan
exit 0
