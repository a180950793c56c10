#!/bin/bash
# tools/san.sh TOOL SEED N small|full     the cases of C25 under a sanitizer
# tools/san.sh TOOL                       only build
# TOOL: tsan (with an instrumented standard library), asan, miri
# exit 0: nothing found; 1: a report of the tool or a failed case; 2: could not be run
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
. tools/env.sh
export RUSTUP_TOOLCHAIN=nightly
tool=$1
host=x86_64-unknown-linux-gnu
base=$PWD/harness/target/san
vend=$base/vendor
dir=$base/$tool
mkdir -p "$dir"
exec 9>"$base/.lock"
flock 9
if [ ! -f "$vend/.done" ]; then
    tools/vendor.sh "$vend" || exit 2
    lib=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
    for d in "$lib"/*/; do
        [ -e "$vend/$(basename "$d")" ] || cp -r "$d" "$vend/$(basename "$d")"
    done
    touch "$vend/.done"
fi
cat > "$base/config.toml" <<T
[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "$vend"
T
sum=$( (cd /repo && find prost-reflect prost-reflect-derive prost-reflect-build -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.bin' -o -name '*.proto' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; cd /verif/harness 2>/dev/null && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
flags=(--offline --config "$base/config.toml" --target "$host" --target-dir "$dir")
case $tool in
    tsan) export RUSTFLAGS="-Zsanitizer=thread -Cdebug-assertions=on -Coverflow-checks=on"; flags+=(-Zbuild-std) ;;
    asan) export RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=on -Coverflow-checks=on" ;;
    miri) ;;
    *) exit 2 ;;
esac
if [ "$sum" != "$(cat "$dir/.sum" 2>/dev/null)" ]; then
    (cd harness && cargo clean -q "${flags[@]/-Zbuild-std/--offline}" -p prost-reflect -p prost-reflect-derive -p prmon) >/dev/null 2>&1
    rm -f "$dir/.sum"
fi
if [ "$tool" = miri ]; then
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=${2:-0}"
    build=(cargo miri run -q "${flags[@]}" -- threads 1 0 0 small)
else
    build=(cargo build -q "${flags[@]}")
fi
if ! (cd harness && "${build[@]}") >"$dir/build.log" 2>&1; then
    tail -20 "$dir/build.log" >&2
    exit 2
fi
echo "$sum" > "$dir/.sum"
flock -u 9
[ $# -lt 4 ] && exit 0
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
case $tool in
    tsan)
        TSAN_OPTIONS="halt_on_error=1 exitcode=66 second_deadlock_stack=1 history_size=4" "$dir/$host/debug/prmon" threads "$2" 0 "$3" "$4" >"$out/o" 2>"$out/e"
        rc=$? ;;
    asan)
        ASAN_OPTIONS="exitcode=66 detect_leaks=0" "$dir/$host/debug/prmon" threads "$2" 0 "$3" "$4" >"$out/o" 2>"$out/e"
        rc=$? ;;
    miri)
        (cd harness && cargo miri run -q "${flags[@]}" -- threads "$2" 0 "$3" "$4") >"$out/o" 2>"$out/e"
        rc=$? ;;
esac
cat "$out/o"
cat "$out/e" >&2
if grep -qE "WARNING: ThreadSanitizer|ERROR: AddressSanitizer|error: Undefined Behavior|error: .*[Dd]ata race|error: deadlock|error: the evaluated program deadlocked" "$out/e"; then
    exit 1
fi
case $rc in
    0|1) exit $rc ;;
    *) exit 2 ;;
esac
