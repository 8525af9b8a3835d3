#!/bin/bash
# usage: run.sh <property> [quick|thorough] [engine flags...]
# Builds the engine when needed and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
here=$(pwd)
. ./env.sh
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
if [ -f "pyeng/harness/$(echo "$prop" | tr A-Z a-z).py" ]; then
  mkdir -p evidence
  exec env PYTHONHASHSEED=0 VERIF_TIER="$tier" python3-vt "$here/pyeng/main.py" -p "$prop" -tier "$tier" "$@"
fi
bash ./setup.sh >/tmp/verif-setup.$$.log 2>&1 || { cat /tmp/verif-setup.$$.log; rm -f /tmp/verif-setup.$$.log; exit 2; }
rm -f /tmp/verif-setup.$$.log
exec env VERIF_TIER="$tier" "$here/bin/engine" -p "$prop" -tier "$tier" -harness "$here/harness" -evidence "$here/evidence" -findings "$here/known_findings.json" -meta "$here/checks.json" "$@"
