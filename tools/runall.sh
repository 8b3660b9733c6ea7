#!/bin/bash
# runall.sh [props]: all checks in parallel (4 at a time), one line each
cd "$(dirname "$0")/.."
P=${*:-$(python3 -c "from sa.checks.registry import CHECKS; print(*CHECKS)")}
printf '%s\n' $P | xargs -P 6 -I{} sh -c 'o=$(python3 -m sa {} 2>&1); echo "rc=$? $(echo "$o" | grep -v "^KNOWN" | grep "^{}:" | cut -c1-160) $(echo "$o" | grep -m2 -A0 "VIOLATION\|Traceback" | cut -c1-120)"'
