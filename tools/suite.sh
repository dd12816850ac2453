#!/bin/bash
# Runs the repository's tests and compares with the baseline.
out=$(mktemp)
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
python3 - "$out" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = set(json.load(open(sys.argv[1]))['passed'])
m = sorted(b - t); print("missing:", len(m), m[:10])
P
rm -f "$out"
