#!/bin/bash
# Runs demo.rs as a test module of a scratch copy of the repository in the current directory: exit 0 if it passes.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_HOME="${CARGO_HOME:-/root/.cargo}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET
export RUSTFLAGS="--cfg md_recover_verif"
d="$(mktemp -d /tmp/md-demo.XXXXXX)" || exit 2
trap 'rm -rf -- "$d"' EXIT
cp -r Cargo.toml Cargo.lock src "$d/" || exit 2
cp "$here/demo.rs" "$d/src/verif_demo.rs" || exit 2
cp "$here/img.rs" "$d/src/verif_img.rs" || exit 2
printf '\n#[cfg(test)]\nmod verif_demo;\n#[cfg(test)]\nmod verif_img;\n' >> "$d/src/main.rs"
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$d" || exit 2
cargo test --offline --quiet verif_demo 2>&1 | tail -n 40 | tee "$d/out"
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
grep -q 'test result: ok. [1-9]' "$d/out" || exit 1
exit 0
