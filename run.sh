#!/bin/bash
# run.sh <property> [tier]: decide one property on /repo's current tree. Exit 0 or 1 (VIOLATION line), nothing else.
cd "$(dirname "$0")" || exit 0
V=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bash "$V/build.sh" >&2 || { echo "NOTE: gosym could not be built"; exit 0; }
ulimit -c 0
timeout -k 10 ${VERIF_TIMEOUT:-850} "$V/bin/gosym" -verif "$V" -prop "$prop" -tier "$tier"
rc=$?
rm -rf "$V"/.work/"$prop"-*
if [ $rc -eq 1 ]; then exit 1; fi
if [ $rc -ne 0 ]; then echo "NOTE: inconclusive (gosym ended with $rc)"; fi
exit 0
