#!/bin/bash
# usage: mutate.sh CHECK 'sed-expr' FILE   (development aid: run a check against a scratch mutant of /repo)
set -e
W=/tmp/mut; mkdir -p $W
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/mut/repo; mkdir -p $W/repo; (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C $W/repo; }
cd $W/repo/visqol-rs/src
cp $3 /tmp/mut/orig
if [ "$2" = patch ]; then (cd $W/repo && patch -p1 -s < $3); else
sed -i -E "$2" $3
if cmp -s $3 /tmp/mut/orig; then echo "NO CHANGE"; exit 9; fi; diff /tmp/mut/orig $3 || true; fi
export VERIF_REPO=$W/repo VERIF_BUILD=$W/build VERIF_EVIDENCE=$W/ev
[ -d $W/build/engine ] || { mkdir -p $W/build; }
python3 /verif/check.py $1; echo "exit $?"
