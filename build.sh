#!/bin/bash
# builds the harness against /repo's working tree; sourced by check.sh, run alone by setup_cmd
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$here/harness/target
export RUP_VERIF=$here
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
# cargo judges by modification time; the contents decide here
sum=$(cd /repo && find Cargo.toml src build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mkdir -p "$CARGO_TARGET_DIR"
if [ "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    (cd "$here/harness" && cargo clean --release -p ruplicity --offline >/dev/null 2>&1)
fi
if ! (cd "$here/harness" && cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1); then
    tail -n 60 "$CARGO_TARGET_DIR/build.log" >&2
    echo "ERROR: the harness does not build" >&2
    return 2 2>/dev/null || exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
