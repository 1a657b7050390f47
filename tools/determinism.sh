#!/bin/bash
# determinism.sh [RUNS] [SEEDS] [CHECKS]: each check twice per seed, with
# different numbers of workers and hash seeds, and compare the digests of
# every run's event log (schedule, faults, everything observed).
# Not registered in MANIFEST.json.
cd "$(dirname "$0")/.."
runs=${1:-200}; seeds=${2:-"1 7 19"}; checks=${3:-$(seq -f 'C%02g' 1 20)}
t=$(mktemp -d /tmp/dstdet.XXXXXX)
bad=0
for c in $checks; do
  for s in $seeds; do
    PYTHONHASHSEED=0 /opt/venv/bin/python run_check.py $c --runs $runs --seed $s --workers 8 --digests $t/a >/dev/null 2>&1
    ra=$?
    PYTHONHASHSEED=$((s + 1000)) TZ=Asia/Kolkata /opt/venv/bin/python run_check.py $c --runs $runs --seed $s --workers 3 --digests $t/b >/dev/null 2>&1
    rb=$?
    if [ $ra = $rb ] && [ -s $t/a ] && cmp -s $t/a $t/b; then
      echo "$c seed=$s runs=$runs same ($(sha256sum < $t/a | cut -c1-12))"
    else
      echo "$c seed=$s runs=$runs DIFFERENT"; bad=1
    fi
    rm -f $t/a $t/b
  done
done
rmdir $t
exit $bad
