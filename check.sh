#!/bin/bash
# check.sh build                    build the harness from /repo's current working tree
# check.sh check <ID> [args..]      decide property <ID> (VERIF_TIER or --tier: quick|thorough)
# check.sh replay <file>            replay a violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VMC_ROOT="$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# properties that look inside the crate (guarded re-exports)
hooked="P13 P14 P15 P16 P25 P26 P27"

stamp() { (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1); }

# build <plain|hooked>
build() {
    local dir="$here/harness/target/$1" flags="" s
    [ "$1" = hooked ] && flags="--cfg regalloc2_verif"
    mkdir -p "$dir"
    s=$(stamp)
    # Decide by content, not by modification time, whether the crate has to be rebuilt.
    if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$s" ]; then
        (cd "$here/harness" && CARGO_TARGET_DIR="$dir" cargo clean --release --offline -p regalloc2 >/dev/null 2>&1)
    fi
    rm -f "$dir/stamp"
    (cd "$here/harness" && RUSTFLAGS="$flags -Awarnings" CARGO_TARGET_DIR="$dir" cargo build --release --offline -q) >"$dir/log" 2>&1 || {
        tail -50 "$dir/log"
        echo "build failed ($1)"
        return 1
    }
    echo "$s" >"$dir/stamp"
}

case "${1:-}" in
build)
    build plain && build hooked
    ;;
check)
    id=$2
    shift 2
    v=plain
    case " $hooked " in *" $id "*) v=hooked ;; esac
    # Should the re-exported items have been renamed, judge what the public interface shows.
    build $v || { [ $v = hooked ] && v=plain && build $v; } || exit 3
    tier=${VERIF_TIER:-quick}
    exec "$here/harness/target/$v/release/vmc" check "$id" --tier "$tier" "$@"
    ;;
replay)
    id=$(sed -n 's/.*"property": "\(P[0-9]*\)".*/\1/p' "$2" | head -1)
    v=plain
    case " $hooked " in *" $id "*) v=hooked ;; esac
    build $v || { [ $v = hooked ] && v=plain && build $v; } || exit 3
    exec "$here/harness/target/$v/release/vmc" replay "$2"
    ;;
*)
    sed -n 2,4p "$0"
    exit 2
    ;;
esac
