#!/bin/bash
# try.sh PATCH PROP...: runs the quick checks of PROP... against a scratch copy of
# /repo with PATCH applied (PATCH may be "none"). /repo itself is not touched.
p=$1; shift
d=$(mktemp -d /tmp/try.XXXXXX)
mkdir $d/v $d/repo
git -C /repo archive HEAD | tar x -C $d/repo
(cd /verif && tar c --exclude=.git --exclude=.build --exclude=evidence --exclude=replays --exclude=seeded .) | tar x -C $d/v
mkdir -p $d/v/evidence $d/v/replays
sed -i "s#=> /repo#=> $d/repo#" $d/v/go.mod
sed -i "s# /repo # $d/repo #" $d/v/build.sh
if [ "$p" != none ]; then
  p=$(realpath "$p")
  (cd $d/repo && git init -q . && git apply "$p") || { echo "try: patch does not apply"; rm -rf "$d"; exit 2; }
fi
cd $d/v
export GMSIM_ROOT=$d/v
./build.sh || { echo "try: build failed"; rm -rf "$d"; exit 2; }
for id in "$@"; do
  .build/gmsim check $id ${TIER:-quick} >$d/out 2>&1; rc=$?
  echo "== $id rc=$rc $(grep -c '^VIOLATION' $d/out) violations"
  if [ $rc != 0 ]; then grep -v '^ *t=' $d/out | cut -c1-${WIDTH:-400} | head -${LINES_MAX:-8}; fi
  [ -n "${KEEP:-}" ] && cp $d/out /tmp/try.$id.out
done
rm -rf "$d"
