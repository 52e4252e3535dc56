#!/bin/bash
# Builds the driver once (which fills Go's build cache) and parses every TLA+ module.
set -e
cd "$(dirname "$0")/.."
mkdir -p out evidence
tools/build.sh "$PWD/out/bin/vh"
command -v java >/dev/null
echo setup ok
