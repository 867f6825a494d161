#!/bin/bash
# Usage: check.sh ID [quick|thorough] -- builds the harness against /repo's working tree and
# decides one property. Exit 0: held, 1: VIOLATION printed, anything else: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export KVERIF_HOME="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
if [ $# -ge 2 ]; then export VERIF_TIER="$2"; fi
bash "$here/build.sh" || { echo "build failed; no verdict" >&2; exit 2; }
exec "$here/harness/target/release/kverif" check "$1"
