#!/bin/bash
# Builds the simulator against /repo's working tree. build.sh i|n : with and without name interning.
set -e
export RUSTFLAGS="--cap-lints allow"
cd "$(dirname "$0")/driver"
f=""; [ "$1" = n ] && f="--no-default-features"
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$(cd .. && pwd)/wrapper.sh"
exec cargo build --offline --quiet $f --target-dir "../../target/$1"
