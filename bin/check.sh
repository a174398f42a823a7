#!/bin/bash
# check.sh <property> [quick|thorough]: re-extracts the MIR of /repo's working tree and decides one property on it.
cd "$(dirname "$0")/.."
bash bin/extract.sh || { echo "extraction of /repo failed"; exit 2; }
exec python3 analysis/check.py "$@"
