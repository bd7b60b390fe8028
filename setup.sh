#!/bin/bash
# Offline sanity check of the tools the checks need (they build what they need from /repo themselves).
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar && java -version >/dev/null 2>&1 || exit 1
/opt/venv/bin/python -c "import numpy, h5py" || exit 1
mkdir -p evidence
cd spec && for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.out 2>&1 || { cat /tmp/sany.out; exit 1; }
done
echo setup ok
