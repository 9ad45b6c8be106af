#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE           re-run one recorded execution
# check.sh build                 only build
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$here
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTFLAGS
cd "$here/mc" || exit 2
log=$(mktemp)
trap 'rm -f "$log"' EXIT
exec 9>"$here/mc/.lock"; flock 9
bin=target/hooked/debug/mc
if ! RUSTFLAGS="--cfg rusty_git_mc -Awarnings" cargo build -q --offline --target-dir target/hooked >"$log" 2>&1; then
    # the hook may not compile in a changed tree: decide everything that does not need it
    bin=target/plain/debug/mc
    if ! RUSTFLAGS="-Awarnings" cargo build -q --offline --target-dir target/plain >"$log" 2>&1; then
        head -c 6000 "$log" >&2
        exit 2
    fi
fi
[ "$1" = build ] && exit 0
# run a private copy, so that a concurrent rebuild cannot replace it
run=$(mktemp -d)
trap 'rm -f "$log"; rm -rf "$run"' EXIT
cp "$bin" "$run/mc" || exit 2
flock -u 9
if [ "$1" = replay ]; then
    "$run/mc" replay "$2"
    exit $?
fi
[ -n "$2" ] && export VERIF_TIER=$2
mkdir -p "$here/evidence"
"$run/mc" run "$1"
