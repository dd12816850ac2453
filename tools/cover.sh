#!/bin/bash
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
mkdir -p "$1"
sed 's#-m vlib.main#tools/cover.py#' "$here/run.sh" | sed "s#^here=.*#here=$here#" > "$1/run.sh"
o=$(cd "$1" && pwd); shift
exec bash "$o/run.sh" "$o" "$@"
