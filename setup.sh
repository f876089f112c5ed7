#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
tmp=$(mktemp -d /tmp/vsim-setup-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cd "$here/sim" && go build -o "$tmp/vsim" ./cmd/vsim && "$tmp/vsim" build "$tmp/b" && "$tmp/vsim" build "$tmp/r" race
