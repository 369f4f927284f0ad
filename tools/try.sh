#!/bin/bash
# tools/try.sh NAME (PATCH | -R COMMIT...) -- ID...   run checks against a changed copy of /repo in /tmp/try/NAME
# (development aid: /repo itself stays untouched; the copy's build products are kept for the next call)
set -u
name=$1; shift
d=/tmp/try/$name; mkdir -p $d
rm -rf /tmp/try/"$name"/repo /tmp/try/"$name"/verif/replays
git -C /repo worktree prune 2>/dev/null
mkdir -p $d/repo $d/verif/sim
git -C /repo archive HEAD | tar -x -C $d/repo
cp -r /repo/Cargo.lock $d/repo/ 2>/dev/null
(cd $d/repo && git init -q . 2>/dev/null)
while [ "${1:-}" != "--" ]; do
  if [ "$1" = -R ]; then shift; git -C /repo show "$1" | (cd $d/repo && git apply -R -) || exit 3; shift
  else p=$(realpath "$1"); (cd $d/repo && git apply "$p") || exit 3; shift; fi
done; shift
cp /verif/check /verif/known-findings.txt $d/verif/
mkdir -p $d/verif/sim/src
rsync -a --delete /verif/sim/src/ $d/verif/sim/src/ 2>/dev/null || { rm -rf /tmp/try/"$name"/verif/sim/src; cp -rp /verif/sim/src $d/verif/sim/src; }
cp /verif/sim/Cargo.lock $d/verif/sim/ 2>/dev/null
sed "s#path = \"/repo\"#path = \"$d/repo\"#" /verif/sim/Cargo.toml > $d/verif/sim/Cargo.toml
[ -d $d/verif/sim/target ] || cp -rp /verif/sim/target $d/verif/sim/target
cd $d/verif
for id in "$@"; do
  out=$(timeout 900 ./check $id 2>&1); rc=$?
  echo "[$name] $id rc=$rc: $(echo "$out" | grep -v '^ ' | tail -2 | tr '\n' ' ' | cut -c1-300)"
done
