#!/bin/bash
# tools/seed_verify.sh ID...   does the planted bug build, pass the stable tests, and is its demonstration right?
# (in a copy of /repo under /tmp/seedv, kept for the next call)
set -u
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0 RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
w=/tmp/seedv/${SLOT:-0}; mkdir -p $w
[ -d $w/repo ] || cp -a /repo $w/repo
cd $w/repo || exit 2
reset() { git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD; }
for id in "$@"; do
  d=/verif/seeded/$id; reset
  cp -r $d /tmp/seedv/demo.${SLOT:-0}.$id
  dd=/tmp/seedv/demo.${SLOT:-0}.$id
  find $dd -name '*.diff' -delete; find $dd -name meta.json -delete
  bash $dd/demo.sh >$w/clean.log 2>&1; c=$?
  if ! git apply $d/patch.diff; then echo "$id: DOES NOT APPLY"; find $dd -delete; continue; fi
  if ! cargo test --workspace --no-run --offline >$w/build.log 2>&1; then echo "$id: DOES NOT BUILD"; grep -A6 '^error' $w/build.log | head -20; find $dd -delete; reset; continue; fi
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$w/test.log 2>&1
  miss=$(python3 - $w/test.log <<'P'
import json,re,sys
ok=set(re.findall(r'^test (.+?) \.\.\. ok',open(sys.argv[1]).read(),re.M))
b=json.load(open('/opt/vp/BASELINE.json')); k=[x for x in b if isinstance(b[x],(list,dict)) and 'stable' in x.lower()][0]
names=[n for n in b[k]]
print(len([n for n in names if not any(n.endswith(o) or o.split(' ')[0] in n for o in ok)]), len(names))
P
)
  bash $dd/demo.sh >$w/bug.log 2>&1; p=$?
  v=good; [ $c = 0 ] && [ $p != 0 ] && [ "${miss%% *}" = 0 ] || v=BAD
  echo "$id: $v demo clean=$c patched=$p missing tests=$miss | $(grep -v '^note' $w/bug.log | grep -A1 "panicked at" | tail -1 | cut -c1-120)"
  [ $c = 0 ] || head -5 $w/clean.log
  find $dd -delete; reset
done
