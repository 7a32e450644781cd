#!/bin/bash
# checks/replay.sh FILE    Re-execute a replay file against /repo's tree.
# Exit 1 with the VIOLATION line: it failed again in exactly the same way.
file=$(realpath "${1:?usage: replay.sh FILE}")
cd "$(dirname "$0")/.." || exit 3
. checks/env.sh || exit 3
bin=$(sed -n 's/^bin //p' "$file" | head -1)
profile=$(sed -n 's/^profile //p' "$file" | head -1)
checks/build.sh "${profile:-release}" "$bin" || exit 3
exec sim/target/"${profile:-release}"/"$bin" replay "$file"
