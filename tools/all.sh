#!/bin/bash
# Run every built check on $VERIF_REPO (default /repo), print the ones that are not quiet.
cd "$(dirname "$0")/.."
for f in checks/c[0-9]*.py; do b=$(basename "$f" .py); echo "${b^^}"; done | xargs -P "${JOBS:-3}" -I{} bash -c 'python3 check.py {} > /tmp/all.{}.log 2>&1; r=$?; if [ $r != 0 ] || grep -qi "undecided" /tmp/all.{}.log; then echo "{} exit $r"; grep -v "^KNOWN" /tmp/all.{}.log | tail -4 | cut -c1-600; fi; rm -f /tmp/all.{}.log'
