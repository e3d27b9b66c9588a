#!/bin/sh
# usage: check.sh ID [quick|thorough]
# Builds the harness against /repo's working tree and runs the check of one property.
dir=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$dir/harness" || exit 2
# cargo notices changes by modification time only: do not trust it with restored files
stamp="$dir/harness/target/repo.sha"
sum=$(find /repo/src /repo/Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    cargo clean -p bumaga --release --offline >/dev/null 2>&1
fi
mkdir -p "$dir/harness/target" && printf '%s\n' "$sum" >"$stamp"
log=$(cargo build --release --offline 2>&1) || {
    printf '%s\n' "$log" | tail -40
    echo "ERROR property=$1 the harness does not build"
    exit 2
}
[ "$1" = build ] && exit 0
export HARNESS_ROOT="$dir"
exec "$dir/harness/target/release/harness" check "$1"
