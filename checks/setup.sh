#!/bin/bash
# every check builds what it needs from /repo's working tree; nothing is cached between runs
set -e
cd "$(dirname "$0")/.."
mkdir -p out evidence
for t in g++ python3 bash; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
