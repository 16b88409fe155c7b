#!/bin/bash
# all checks, summary lines only
cd "$(dirname "$0")/.."
for f in checks/c[0-9]*.py; do c=$(basename $f .py); python3 checks/run.py ${c^^} ${1:-quick} | grep -E "obligations:|VIOLATION" | cut -c1-160; done
