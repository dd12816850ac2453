#!/bin/bash
# bug.sh ID [notests] : validates seeded/ID in a scratch copy of /repo (tests, demo) and runs its property's check there
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
id=$1; d="$here/seeded/$id"
w=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar x -C "$w"
export GIT_CEILING_DIRECTORIES=/tmp
demo() { ( cd "$w" && mkdir -p "$w/../$(basename $w).d" && cp "$d"/* "$w/../$(basename $w).d/" && timeout 300 bash "$w/../$(basename $w).d/demo.sh" >"$w.demo" 2>&1; echo $?; rm -rf "$w.d" ); }
c=$(demo)
(cd "$w" && git init -q . 2>/dev/null; git apply "$d/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
p=$(demo)
echo "$id: demo clean=$c patched=$p :: $(tail -1 "$w.demo" | cut -c1-150)"; rm -f "$w.demo"
if [ "$2" != notests ]; then
  sed "s#/repo#$w#g; s#^\. /opt/vp/env.sh#. /opt/vp/env.sh#; s#PYTHONPATH=\"\$root\"#PYTHONPATH=\"$w/src/python:$w:\$root\"#" /opt/vp/test.sh > "$w.test.sh"
  bash "$w.test.sh" "$w.json" >/dev/null 2>&1
  python3 - "$w.json" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = set(json.load(open(sys.argv[1]))['passed'])
m = sorted(b - t); print("   tests missing:", len(m), m[:6])
P
  rm -f "$w.json" "$w.test.sh"
fi
prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
cd "$here" && VERIF_SEED=1 VERIF_REPO="$w" ./run.sh $prop | grep -v KNOWN | cut -c1-260 | tail -5 | sed 's/^/   /'
