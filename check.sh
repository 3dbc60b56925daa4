#!/bin/bash
# usage: check.sh <id> [quick|thorough]      builds against /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
tier=${2:-${VERIF_TIER:-quick}}
unset RUP_FUZZ_BIN
if [ "$tier" = thorough ]; then
    # coverage-guided search is added to the generated cases
    (bash fuzz/build.sh) || exit 2
    export RUP_FUZZ_BIN=$PWD/fuzz/target/release/rup-fuzz
fi
exec "$CARGO_TARGET_DIR/release/rup-check" run "$1" "$tier" "${VERIF_SEED:-1}"
