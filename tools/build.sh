#!/bin/bash
# build.sh [5|30]   Build the harness (and with 5, also the one for C05, with 30 the server with the C++ implementation for C30) from /repo's current working tree.
# The build is keyed on file contents, not on modification times alone: when the contents of /repo's
# sources changed since the last build, the crates that come from /repo are rebuilt from scratch.
# Exit status 2: no verdict is possible. 1: the code generated for C05 does not compile.
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
. tools/env.sh
mkdir -p harness/target
exec 9>harness/target/.lock
flock 9
sum=$(cd /repo && find prost-reflect prost-reflect-derive prost-reflect-build -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.bin' -o -name '*.proto' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
old=$(cat harness/target/.repo-sum 2>/dev/null)
log=harness/target/build.log
if [ "$sum" != "$old" ]; then
    rm -f harness/target/.repo-sum harness/target/.repo-sum5
    for profile in dev plain; do
        (cd harness && cargo clean --offline -q --profile $profile -p prost-reflect -p prost-reflect-derive -p prmon) >/dev/null 2>&1
    done
    (cd harness5 && cargo clean --offline -q --target-dir ../harness/target -p prost-reflect-build -p prmon5) >/dev/null 2>&1
fi
(cd harness && cargo build --offline --profile plain) >"$log.plain" 2>&1 &
if ! (cd harness && cargo build --offline) >"$log" 2>&1; then
    tail -40 "$log"
    wait
    exit 2
fi
if ! wait $!; then
    tail -40 "$log.plain"
    exit 2
fi
echo "$sum" > harness/target/.repo-sum
if [ "$1" = 30 ]; then
    bin=harness/target/refpb
    [ $bin -nt refimpl/server.cc ] && exit 0
    g++ -O1 -o $bin.new refimpl/server.cc -lprotobuf -lpthread >harness/target/refpb.log 2>&1 && mv $bin.new $bin && exit 0
    tail -40 harness/target/refpb.log
    exit 2
fi
[ "$1" = 5 ] || exit 0
log=harness/target/build5.log
build5() { (cd harness5 && cargo build --offline --target-dir ../harness/target "$@") >"$log" 2>&1; }
if ! build5 -p prost-reflect-build; then
    tail -40 "$log"
    exit 2
fi
build5 && exit 0
if grep -q 'could not compile `prmon5` (bin' "$log"; then
    exit 1
fi
tail -40 "$log"
exit 2
