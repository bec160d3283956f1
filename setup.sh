#!/bin/bash
# Builds everything once: warms the Go build cache for the checks.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.inc.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 1
trap 'rm -rf "$W"' EXIT
for p in $(cat "$here/tools/warm"); do vbuild "$p" "$W" || exit 1; done
