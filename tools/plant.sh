#!/bin/bash
# plant.sh confirm <id>   the planted change builds, passes the stable tests, and its demo tells it from the original (in /tmp/scratch/repo)
# plant.sh catch <id> [tier]   the check of its property, with the change applied to /repo
set -u
V=/verif; S=/tmp/scratch/repo; id="$2"; d=$V/seeded/$id
case "$1" in
confirm)
  cd $S && git checkout -q . && git fetch -q /repo && git reset -q --hard FETCH_HEAD
  run_demo() { rm -rf /tmp/scratch/demo; cp -a "$d" /tmp/scratch/demo; rm -f /tmp/scratch/demo/*.diff /tmp/scratch/demo/meta.json; (cd $S; timeout 300 bash /tmp/scratch/demo/demo.sh >/tmp/scratch/demo.out 2>&1); }
  run_demo; a=$?
  [ $a -eq 0 ] || tail -20 /tmp/scratch/demo.out
  git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
  sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/scratch/build.sh; sed "s#/repo#$S#g" /opt/vp/test.sh > /tmp/scratch/test.sh
  bash /tmp/scratch/build.sh >/tmp/scratch/b.log 2>&1 || { echo "$id: does not build"; grep -A7 "^error" /tmp/scratch/b.log | head -40; git checkout -q .; exit 1; }
  bash /tmp/scratch/test.sh /tmp/scratch/out.json >/tmp/scratch/t.log 2>&1
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/scratch/out.json'))['passed'])
print([t for t in b if t not in o])")
  run_demo; b=$?
  tail -3 /tmp/scratch/demo.out
  git checkout -q .
  echo "$id: demo original=$a patched=$b tests missing=$m"
  [ $a -eq 0 ] && [ $b -ne 0 ] && [ "$m" = "[]" ] ;;
catch)
  # in a mount namespace of its own, with copies in the places of /verif and /repo
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p /tmp/scratch/verif
  rsync -a --delete --exclude target --exclude evidence --exclude .git $V/ /tmp/scratch/verif/
  (cd $S && git checkout -q . && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git apply $d/patch.diff) || exit 2
  unshare -m bash -c "mount --bind $S /repo && mount --bind /tmp/scratch/verif /verif && cd /verif && mkdir -p evidence && bash check.sh $p ${3:-quick}" > /tmp/scratch/c.log 2>&1; rc=$?
  (cd $S && git checkout -q .)
  echo "$id: $p rc=$rc $(grep -c '^VIOLATION' /tmp/scratch/c.log) $(grep -A2 '^  class' /tmp/scratch/c.log | head -2 | cut -c1-200 | tr '\n' '|')$(grep -o '[0-9]* runs' /tmp/scratch/c.log | head -1)"
  ;;
esac
