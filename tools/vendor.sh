#!/bin/bash
# A directory source with the dependencies of harness/Cargo.lock, for toolchains whose registry cache is elsewhere.
# tools/vendor.sh DIR
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
dir=$1
mkdir -p "$dir"
python3 - "$dir" harness/Cargo.lock <<'P'
import sys, os, glob, shutil, json, re
dst, lock = sys.argv[1:]
home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
for blk in open(lock).read().split("[[package]]")[1:]:
    g = dict(re.findall(r'^(\w+) = "(.*)"$', blk, re.M))
    if "checksum" not in g:
        continue
    n = f'{g["name"]}-{g["version"]}'
    out = os.path.join(dst, n)
    if os.path.exists(os.path.join(out, ".cargo-checksum.json")):
        continue
    src = glob.glob(f"{home}/registry/src/*/{n}")
    if not src:
        # not unpacked: a crate of another platform
        c = glob.glob(f"{home}/registry/cache/*/{n}.crate")
        if not c:
            continue
        import tarfile
        tarfile.open(c[0]).extractall(dst)
    else:
        shutil.copytree(src[0], out, dirs_exist_ok=True)
    json.dump({"files": {}, "package": g["checksum"]}, open(os.path.join(out, ".cargo-checksum.json"), "w"))
P
