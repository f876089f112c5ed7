#!/bin/bash
# Usage: check.sh ID   (from /verif).  Rebuilds everything from /repo's working tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
tmp=$(mktemp -d /tmp/vsim-drv-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/vsim" ./cmd/vsim) || exit 3
"$tmp/vsim" "${2:-check}" "$1"
