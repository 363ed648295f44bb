#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree; exit 1 if it still violates.
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
if grep -q '"property": *"I' "$f"; then b=simi; t=target/i; else b=sim; t=target; fi
bash "$here/build.sh" $b || exit 2
exec env VERIF_DIR="$here" "$here/$t/debug/$b" replay "$f"
