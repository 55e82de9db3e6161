# Build environment for the harness (same compiler as /opt/vp/env.sh, own target dir).
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
_od=$PWD
. /opt/vp/env.sh
cd "$_od"
export CARGO_TARGET_DIR=$V/.build/target
export CARGO_INCREMENTAL=0
