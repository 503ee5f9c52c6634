#!/bin/bash
# runseeds.sh [id...]: run the property's check against each planted bug in scratch worktrees
# TESTS=1: also the repository's stable tests; NOCHECK=1: only those
cd "$(dirname "$0")/.."; V=$PWD; R=${FF_REPO:-/repo}
for d in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  wt=$(mktemp -d /tmp/rswt.XXXX); git -C $R worktree add -q --force $wt HEAD
  if git -C $wt apply $V/seeded/$d/patch.diff; then
    if [ -n "$TESTS" ]; then (cd $wt; PYTHONHASHSEED=0 PYTHONPATH=$wt/src:/opt/vp/pytest_plugins OMP_NUM_THREADS=1 timeout 900 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider -p ff_fixed_seed --include-slow --no-showlocals --tb=line --ignore=tests/autoquant -o junit_family=xunit2 --junitxml=/tmp/seedjunit_$d.xml tests > /tmp/seedtests_$d.log 2>&1; python3 /opt/vp/results.py /tmp/seedres_$d.json junit:/tmp/seedjunit_$d.xml >/dev/null 2>&1; python3 $V/tools/stable.py /tmp/seedres_$d.json $d); fi
    if [ -z "$NOCHECK" ]; then
    FF_REPO=$wt PYTHONPATH=$wt/src /opt/venv/bin/python run.py $prop > /tmp/seedrun_$d.log 2>&1; rc=$?
    echo "$d $prop rc=$rc $(grep -c VIOLATION /tmp/seedrun_$d.log) $(grep -m2 '^---' /tmp/seedrun_$d.log | tr '\n' ' ')"; fi
  else echo "$d does not apply"; fi
  git -C $R worktree remove --force $wt
done
