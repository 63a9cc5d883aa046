#!/bin/bash
# Usage: check.sh <property>   (or: check.sh --build)
# Rebuilds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/harness/target"
export VERIF_DIR="$PWD"
# build from file contents, not from time stamps
stamp="$CARGO_TARGET_DIR/release/.repo-hash"
now=$(cd /repo/docx-core && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
now="$now $(cat harness/Cargo.toml harness/src/*.rs harness/src/*/*.rs | sha256sum)"
mkdir -p "$CARGO_TARGET_DIR/release"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ] || [ ! -x "$CARGO_TARGET_DIR/release/mc" ]; then
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \( -name 'docx-rs-*' -o -name 'mc-*' \) -exec rm -rf {} + 2>/dev/null
    log="$CARGO_TARGET_DIR/build.log"
    if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
        tail -n 40 "$log" >&2
        echo "harness build failed" >&2
        exit 3
    fi
    printf '%s\n' "$now" >"$stamp"
fi
[ "$1" = "--build" ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" check "$1"
