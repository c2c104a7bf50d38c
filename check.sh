#!/bin/bash
# Build the simulator against /repo's current working tree and check one property.
#   check.sh C07 [--thorough]     exit 0 held / 1 VIOLATION / 2 could not decide
#   check.sh --build              build only
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$PWD/target
export RUSTFLAGS="--cfg yuubind_sim" RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p target evidence replays
LOG=target/build.log

build() (
    flock 9
    # cargo goes by file times; go by contents
    sum=$( { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum; find sim -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum)
    if [ "$sum" = "$(cat target/built.sum 2>/dev/null)" ] && [ -x target/release/yuusim ]; then
        return 0
    fi
    if [ -e target/built.sum ]; then
        (cd sim && cargo clean --release --offline -q -p smtp-message -p smtp-server -p smtp-queue -p yuusim) >/dev/null 2>&1
        rm -f target/built.sum
    fi
    (cd sim && cargo build --release --offline --locked) >"$LOG" 2>&1 || return 1
    echo "$sum" > target/built.sum
) 9>target/build.lock

if ! build; then
    echo "check.sh: the build of /repo with the simulator failed:" >&2
    grep -E -A8 '^error' "$LOG" | head -60 >&2
    exit 2
fi
[ "$1" = --build ] && exit 0
exec target/release/yuusim check "$@"
