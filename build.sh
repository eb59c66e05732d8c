#!/bin/bash
# Builds backpak's binary and the harness (which links backpak's library) from /repo.
# Sourced by check.sh; run directly as the setup command.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
vh_build() {
    ( cd /repo && cargo build -q --offline --bin backpak ) || return 1
    ( cd "$V/harness" && cargo build -q --offline --target-dir /repo/target ) && return 0
    # The library's interface may have changed: drive the command line only, then.
    ( cd "$V/harness" && cargo build -q --offline --target-dir /repo/target --no-default-features )
}
# The binary with the hooks on (which C23 drives), next to the usual one.
vh_hooked() {
    ( cd /repo && RUSTC_WORKSPACE_WRAPPER="$V/tools/rustc-hook.sh" cargo build -q --offline --bin backpak &&
        cp target/debug/backpak target/debug/backpak-hook.new && mv target/debug/backpak-hook.new target/debug/backpak-hook )
}
if [ -n "$VH_HOOKED" ]; then
    vh_hooked || return 1
    export VH_BIN_HOOK=/repo/target/debug/backpak-hook
fi
vh_build
