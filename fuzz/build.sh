#!/bin/bash
# Builds rup-fuzz against /repo's working tree: the library instrumented for coverage, everything
# else as it is, except that proptest's PassThrough source of random numbers hands the bytes out in
# order (the original halves them at each branch of a strategy and goes on with zeros).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/target
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/target"
src=$(find "${CARGO_HOME:-$HOME/.cargo}/registry/src" -maxdepth 2 -name proptest-1.12.0 2>/dev/null | head -n 1)
[ -n "$src" ] || { echo "ERROR: the sources of proptest are not there" >&2; exit 2; }
if [ ! -f "$here/target/proptest/.patched" ]; then
    rm -rf "${here:?}/target/proptest"
    cp -r "$src" "$here/target/proptest" && chmod -R u+w "$here/target/proptest" || exit 2
    python3 - "$here/target/proptest/src/test_runner/rng.rs" <<'P' || { echo "ERROR: proptest is not as expected" >&2; exit 2; }
import re, sys
p = sys.argv[1]
s = open(p).read()
a, n = re.subn(r"TestRngImpl::PassThrough \{ off, end, data \} => \{.*?\n            \}\n",
'''TestRngImpl::PassThrough { off: _, end: _, data } => IN_ORDER.with(|c| {
                for d in dest.iter_mut() {
                    let i = c.get();
                    c.set(i + 1);
                    *d = data.get(i).copied().unwrap_or_else(|| {
                        let x = (i as u64 / 8 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                        let x = (x ^ (x >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
                        ((x ^ (x >> 32)) >> (i % 8 * 8)) as u8
                    });
                }
            }),
''', s, flags=re.S)
assert n == 1
b = "let (start, end) = bounds.unwrap_or((0, data.len()));"
assert a.count(b) == 1
a = a.replace(b, "if bounds.is_none() { IN_ORDER.with(|c| c.set(0)) }\n                    " + b)
open(p, "w").write(a + "\nstd::thread_local! { static IN_ORDER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }\n")
P
    touch "$here/target/proptest/.patched"
fi
# the library by content, not by time
sum=$(cd /repo && find Cargo.toml src build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$here/target/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    (cd "$here" && cargo clean --release -p ruplicity --offline >/dev/null 2>&1)
fi
if ! (cd "$here" && RUSTC_WRAPPER=$here/rustc.sh cargo build --release --offline --locked >"$here/target/build.log" 2>&1); then
    tail -n 40 "$here/target/build.log" >&2
    echo "ERROR: rup-fuzz does not build" >&2
    exit 2
fi
echo "$sum" >"$here/target/.repo-sum"
