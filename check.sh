#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and runs one property's check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
case "$1" in I*) b=simi; t=target/i ;; *) b=sim; t=target ;; esac
bash "$here/build.sh" $b || exit 2
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec "$here/$t/debug/$b" run "$1"
