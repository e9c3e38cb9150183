#!/bin/bash
# Builds the checker (mc) together with /repo's current working tree, offline.
# Prints the compiler's output only when the build fails.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$(dirname "$(readlink -f "$0")")/mc" || exit 2
mkdir -p target
exec 9>target/.verif-lock
flock 9
# cargo looks at modification times only; decide by content whether the library must be rebuilt
h=$( (cd /repo && cat Cargo.toml && find src -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
if [ "$h" != "$(cat target/.verif-src 2>/dev/null)" ]; then
    rm -f target/.verif-src
    rm -rf "$PWD"/target/release/.fingerprint/rust-raknet-* "$PWD"/target/release/.fingerprint/rust_raknet-*
fi
out=$(cargo build --release --offline 2>&1) || { echo "$out"; echo "build failed"; exit 2; }
echo "$h" > target/.verif-src
exit 0
