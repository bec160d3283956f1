#!/bin/bash
# check.sh PROPERTY [quick|thorough] [-- extra args]: builds the monitors against
# /repo's working tree and decides one property.
# exit 0 held, 1 violated, 2 the check itself could not be run.
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.inc.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
vbuild "$prop" "$W" || { echo "check $prop: build failed" >&2; exit 2; }
cd "$W" || exit 2
"$W/vh" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -known "$here/KNOWN_FINDINGS" \
  -dir "$W" -evidence "$here/evidence/$prop.json" -replaydir "$here/.replay" "$@"
