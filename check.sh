#!/bin/bash
# check.sh ID            build from /repo's working tree and run the check of property ID
# check.sh ID replay F   re-run the case of a replay file
# check.sh ID case G I   re-run case I of generator G
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
id="$1"; shift
race=""; bin="harness"
case "$id" in C01) race="-race"; bin="harness-race";; esac
mkdir -p .build
cd harness || exit 2
if ! go build $race -o "../.build/$bin" . ; then
  echo "build failed" >&2; exit 2
fi
cd .. || exit 2
if [ $# -gt 0 ]; then
  mode="$1"; shift
  if [ "$mode" = replay ]; then exec ".build/$bin" replay "$@"; fi
  exec ".build/$bin" "$mode" "$id" "$@"
fi
exec ".build/$bin" run "$id"
