#!/bin/bash
# checks/build.sh PROFILE BIN...   Build simulator binaries from /repo's tree.
cd "$(dirname "$0")/.." || exit 3
. checks/env.sh || exit 3
profile=$1
shift
exec 9>sim/target/.build-lock
flock 9 || exit 3
# Never trust timestamps to notice that the library changed.
now=$(cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp=sim/target/.sqrid-$profile
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    [ -d sim/target/"$profile" ] && cargo clean --offline --manifest-path sim/Cargo.toml --profile "$profile" -p sqrid >/dev/null 2>&1
fi
args=()
for b in "$@"; do args+=(--bin "$b"); done
log=sim/target/.build-$profile.log
for try in 1 2; do
    if cargo build --offline --manifest-path sim/Cargo.toml --profile "$profile" "${args[@]}" >"$log" 2>&1; then
        echo "$now" >"$stamp"
        exit 0
    fi
done
echo "build failed:" >&2
tail -40 "$log" >&2
exit 3
