#!/bin/bash
# seed.sh save ID | verify ID | catch ID [PROP..]   (works in /tmp/sd; never in /repo)
R=/tmp/sd/repo; V=/tmp/sd/verif; S=/verif/seeded/$2
clean() { git -C $R checkout -q -- . ; }
case $1 in
save) mkdir -p $S; git -C $R diff > $S/patch.diff; clean; [ -f $S/demo.sh ] || cp /verif/tools/demo.sh.tpl $S/demo.sh; chmod +x $S/demo.sh; wc -l $S/patch.diff;;
verify)
  clean; git -C $R apply $S/patch.diff || exit 1
  . /opt/vp/env.sh
  (cd $R && mkdir -p target/vp-tmp && TMPDIR=$R/target/vp-tmp NO_COLOR=1 TERM=dumb cargo test $SCOPE --no-fail-fast -- --test-threads 8 > /tmp/sd/test.log 2>&1)
  sed -i -E 's/^(test tests\/\S+\.rs( \[[a-z ]+\])? \.\.\. )(mismatch|error|wip)\s*$/\1FAILED/' /tmp/sd/test.log
  python3 /opt/vp/results.py /tmp/sd/out.json cargo:/tmp/sd/test.log
  python3 - $2 <<'P' || bad=1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/sd/out.json'))
m=sorted(b-set(o['passed']))
print(sys.argv[1],'tests', 'ok' if not m else 'MISSING %d: %s'%(len(m),m[:4]))
sys.exit(bool(m))
P
  (cd $R && $S/demo.sh >/tmp/sd/demo.log 2>&1); p=$?
  clean
  (cd $R && $S/demo.sh >/tmp/sd/demo0.log 2>&1); q=$?
  echo "$2 demo patched=$p clean=$q"; [ $p = 0 ] || head -3 /tmp/sd/demo.log; [ $q = 0 ] || head -5 /tmp/sd/demo0.log;;
catch)
  mkdir -p $V; rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays /verif/ $V/
  sed -i "s#/repo/#$R/#g; s#cd /repo #cd $R #g" $V/harness/Cargo.toml $V/harness5/Cargo.toml $V/tools/build.sh
  clean; git -C $R apply $S/patch.diff || exit 1
  id=$2; shift 2; props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  for p in $props; do VERIF_SEED=1 VERIF_TIER=quick $V/check.sh $p > /tmp/sd/check.log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/sd/check.log | tr '\n' ' ' | cut -c1-260)"; done
  clean;;
esac
