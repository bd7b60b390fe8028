#!/bin/bash
# mut.sh PATCHFILE|REVERT:sha ID...: run checks (quick) against a scratch copy of /repo with a change.  VERIF: the copy of /verif to use.
V=${VERIF:-/verif}; M=/tmp/mut_$$
mkdir "$M" || exit 2; cp -a /repo/. "$M/"
cd "$M" || exit 2
case "$1" in
 REVERT:*) git revert --no-edit -n "${1#REVERT:}" || exit 2;;
 *) git apply "$1" || exit 2;;
esac
shift
for i in "$@"; do (cd "$V"; VERIF_REPO=$M ./check.sh $i ${TIER:-quick} 2>&1 | cut -c1-260 | head -6); done
rm -rf "$M"
