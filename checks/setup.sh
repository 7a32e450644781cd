#!/bin/bash
# Build every simulator binary once (offline, from the committed files).
cd "$(dirname "$0")/.." || exit 3
bins=$(cd sim/src/bin && ls | sed 's/\.rs$//')
checks/build.sh release $bins || exit 3
