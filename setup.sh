#!/bin/bash
# Builds the framework from the committed files: the TLC overrides and the harness.
set -e
cd "$(dirname "$0")"
V=$PWD
mkdir -p .build/java
javac -cp /opt/veriftools/tla/tla2tools.jar -d .build/java java/plv/*.java
. ./env.sh
cd "$V/harness" && cargo build --release --offline
