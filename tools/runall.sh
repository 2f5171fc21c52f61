#!/bin/bash
# runs the given checks (default: all with a harness) one after another with a time limit
cd "$(dirname "$0")/.."
for p in ${@:-$(ls harness | grep -oE '^[A-Z][0-9]+' | sort -u)}; do timeout 880 python3 tools/check.py $p 2>&1 | grep -v "^VIOLATION" | cut -c1-400 | head -40; done
