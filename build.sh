#!/bin/bash
# Builds /verif/mc against the current tree of /repo (offline). Sourced by check.sh, run by setup_cmd.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS=-Awarnings RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR
mc_build() {
    cd "$V/mc" || return 1
    # File times are not trusted: rebuild the code under test whenever its content changed.
    local h
    h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$h" != "$(cat target/.repo-hash 2>/dev/null)" ]; then
        rm -f target/.repo-hash
        cargo clean --offline --release -p lxi-device -p lxi-hislip -p lxi-socket -p lxi-telnet -p lxi-vxi11 -p mc -p xdrall >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked >target.log 2>&1; then
        tail -n 40 target.log >&2
        echo "build of the model checker failed" >&2
        return 1
    fi
    echo "$h" >target/.repo-hash
}
# The private types of the wire formats (part of C13 and C30) are compiled from /repo's sources, by
# their names; where these names are gone, that part is left out.
private_build() {
    cd "$V/mc" || return 1
    cargo build --release --offline --locked -p xdrall --bin "$1" >"target-$1.log" 2>&1 || rm -f "target/release/$1"
}
mc_build && case ${1:-all} in
    C13) private_build hsall ;;
    C30) private_build xdrall ;;
    all) private_build hsall; private_build xdrall ;;
esac
