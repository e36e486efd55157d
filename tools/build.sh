#!/bin/bash
# Builds the checking machinery from /verif and /repo's current working tree.
#   build.sh base     engine + wasm64 standard library (independent of /repo)
#   build.sh wasm     harness + /repo crate -> wasm64 module
#   build.sh native   harness + /repo crate -> native replay binary
# All outputs go to /verif/build (git-ignored).
set -e
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/build
NIGHTLY=nightly
NATIVE=1.88-x86_64-unknown-linux-gnu
SYM="-Csymbol-mangling-version=legacy -Zunstable-options"
mkdir -p "$B"

base() {
    (cd "$V/engine" && RUSTUP_TOOLCHAIN=$NATIVE CARGO_TARGET_DIR=$B/engine cargo build --offline --release)
    STAMP=$(cat "$V/tools/build.sh" "$V/tools/patch_std.py" | sha256sum)
    if [ "$(cat "$B/sysroot/ok" 2>/dev/null)" != "$STAMP" ]; then
        rm -rf "$B/sysroot" "$B/std" "$B/wasm"
        SR=$(rustc +$NIGHTLY --print sysroot)
        mkdir -p "$B/std/src"
        # standard library with a hash that depends on the length only, so that
        # symbolic keys are told apart by comparing them
        mkdir -p "$B/std/rust"
        cp -r "$SR/lib/rustlib/src/rust/library" "$B/std/rust/"
        python3 "$V/tools/patch_std.py" "$B/std/rust/library/core/src/hash/sip.rs"
        printf '[package]\nname="emptycrate"\nversion="0.1.0"\nedition="2021"\n[profile.release]\nopt-level=2\npanic="abort"\n[workspace]\n' > "$B/std/Cargo.toml"
        : > "$B/std/src/lib.rs"
        (cd "$B/std" && __CARGO_TESTS_ONLY_SRC_ROOT=$B/std/rust/library RUSTFLAGS="$SYM" CARGO_TARGET_DIR=$B/std/target cargo +$NIGHTLY build --offline --release \
            -Zbuild-std=std,panic_abort --target wasm64-unknown-unknown \
            --config 'source.crates-io.replace-with="vs"' \
            --config "source.vs.directory=\"$SR/lib/rustlib/src/rust/library/vendor\"")
        L=$B/sysroot/lib/rustlib/wasm64-unknown-unknown/lib
        mkdir -p "$L"
        find "$B/std/target/wasm64-unknown-unknown/release" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name '*emptycrate*' -exec cp {} "$L/" \;
        echo "$STAMP" > "$B/sysroot/ok"
    fi
}

wasm() {
    SR=$(rustc +$NIGHTLY --print sysroot)
    (cd "$V/harness" && RUSTFLAGS="--sysroot $B/sysroot -Clinker=$SR/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld $SYM" \
        CARGO_TARGET_DIR=$B/wasm cargo +$NIGHTLY build --offline --locked --release --target wasm64-unknown-unknown)
}

native() {
    (cd "$V/replay" && RUSTUP_TOOLCHAIN=$NATIVE CARGO_TARGET_DIR=$B/native cargo build --offline --locked)
}

for s in "$@"; do "$s"; done
