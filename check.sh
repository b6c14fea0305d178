#!/bin/bash
# check.sh <property> [quick|thorough]   decides one property on /repo's current working tree
# check.sh replay <file>                 re-executes a recorded counterexample
# check.sh build                         builds everything
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG RUST_BACKTRACE CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)

# A change of /repo's sources is seen by its content, not only by its time stamp.
stamp() { # target dir, packages...
    local dir=$1 new old
    shift
    new=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$here/$dir/target/stamp" 2>/dev/null)
    if [ "$new" != "$old" ] && [ -d "$here/$dir/target" ]; then
        for p in "$@"; do
            rm -rf "$here/$dir/target/debug/.fingerprint/$p-"*
        done
    fi
    mkdir -p "$here/$dir/target"
    echo "$new" >"$here/$dir/target/stamp"
}

log=$(mktemp)
trap 'rm -f "$log"' EXIT

cargo_build() { # crate directory, package
    cargo build --offline --manifest-path "$here/$1/Cargo.toml" -p "$2" >"$log" 2>&1
}

broken() {
    cat "$log" >&2
    echo "ERROR: the harness does not build against the current tree" >&2
    exit 2
}

build_mc() {
    stamp mc cw-ica-controller mc
    cargo_build mc mc || broken
}

build_lite() { # packages
    stamp lite cw-ica-controller cw-ica-controller-derive cw-ica-owner callback-counter l00 l10 l01 l11 mac
    for p in "$@"; do
        cargo_build lite "$p" && continue
        # the controller itself builds (build_mc), so a library build that does not is a violation
        # of the interface property
        if [[ "$id" = C21 || "$id" = C24 ]] && grep -Eq 'could not compile `cw-ica-controller`|could not compile `mac`' "$log"; then
            MC_LITE_FAIL="build $p: $(grep -m1 -E '^error' "$log")"
            export MC_LITE_FAIL
            return
        fi
        broken
    done
}

build_for() {
    build_mc
    case $1 in
        C21) build_lite l00 l10 l01 l11 mac ;;
        C23) build_lite l00 l11 ;;
        C24) build_lite l00 l10 l01 l11 ;;
    esac
}

export MC_LITE=$here/lite/target/debug
mc=$here/mc/target/debug/mc
case $1 in
    build)
        build_mc
        build_lite l00 l10 l01 l11 mac
        ;;
    replay)
        id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
        build_for "$id"
        "$mc" replay "$2"
        ;;
    *)
        id=$1
        build_for "$id"
        "$mc" check "$id" "${2:-${VERIF_TIER:-quick}}" "$here/evidence"
        ;;
esac
