#!/bin/bash
# developer helper: brief verdict of one or more checks
cd "$(dirname "$0")"
for p in "$@"; do
  /opt/venv/bin/python run_check.py $p --tier ${TIER:-quick} -v 2>&1 | grep "VIOL\|DEGR\|$p quick\|$p thorough\|scenario\|also\|KNOWN\|Error" | cut -c1-${W:-170} | tail -${N:-25}
done
