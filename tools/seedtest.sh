#!/bin/bash
# seedtest.sh ID [notests]: does the planted bug count?  (applies, builds, tests pass, demo 0 -> nonzero)  In a scratch copy of /repo.
D=${SEEDS:-/verif/seeded}/$1; W=/tmp/seedtest_$1
rm -rf "$W"; mkdir "$W"; cp -a /repo/. "$W/"; cd "$W" || exit 2
. /opt/vp/lib/env.sh >/dev/null 2>&1
export PYTHONPATH=$W
bash "$D/demo.sh" >/tmp/seedtest_$1.log 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$1: does not apply"; rm -rf "$W"; exit 1; }
if git diff --name-only | grep -q '\.pyx$'; then SETUPTOOLS_SCM_PRETEND_VERSION=0.8.6 /opt/venv/bin/python setup.py -q build_ext --inplace >/dev/null 2>&1 || echo "$1: build failed"; fi
timeout 300 bash "$D/demo.sh" >>/tmp/seedtest_$1.log 2>&1; b=$?
t=skipped
if [ "$2" != notests ]; then
  MPLBACKEND=agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=line -rfE >/tmp/seedtest_$1.pytest 2>&1; t="$(tail -1 /tmp/seedtest_$1.pytest) new: $(grep -E "^(FAILED|ERROR)" /tmp/seedtest_$1.pytest | sed "s/ - .*//" | sort | comm -23 - /tmp/base_fail)"
fi
echo "$1: demo clean=$a patched=$b tests: $t"
rm -rf "$W"
