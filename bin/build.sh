#!/bin/bash
# Build the simulator and the named builds of the library from /repo's working
# tree.  Usage: build.sh VARIANT...   Results: .build/libs/<variant>.so, .build/sim
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_INCREMENTAL
out=$here/.build
mkdir -p "$out/libs" "$out/log" "$out/stamp"
exec 9> "$out/lock"
flock 9

# What a build is made from, by content: modification times are not trusted.
digest() { (cd "$1" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum; }
lib_digest="$(digest /repo/src; cat /repo/Cargo.toml /repo/build.rs 2>/dev/null | sha256sum; digest "$here/node")"
sim_digest="$(digest "$here/sim")"

# name, digest, manifest, product, cargo arguments
one() {
    local name=$1 digest=$2 manifest=$3 product=$4 dest=$5
    shift 5
    if [ -e "$dest" ] && [ "$(cat "$out/stamp/$name" 2>/dev/null)" = "$digest" ]; then
        return 0
    fi
    rm -rf "${out:?}/t/$name" "$dest" "$out/stamp/$name"
    (cd "$(dirname "$manifest")" && CARGO_TARGET_DIR=$out/t/$name cargo build -q --offline "$@") > "$out/log/$name" 2>&1 || {
        echo "build of $name failed:" >&2
        tail -n 40 "$out/log/$name" >&2
        return 1
    }
    cp "$out/t/$name/$product" "$dest" && printf '%s\n' "$digest" > "$out/stamp/$name" && rm -rf "${out:?}/t/$name"
}

pids=()
one sim "$sim_digest" "$here/sim/Cargo.toml" release/sim "$out/sim" --release &
pids+=($!)
for v in "$@"; do
    case $v in
        n64r) one $v "$lib_digest" "$here/node/Cargo.toml" release/libsimnode.so "$out/libs/$v.so" --release & ;;
        n64n) one $v "$lib_digest" "$here/node/Cargo.toml" release/libsimnode.so "$out/libs/$v.so" --release --features noasm & ;;
        n32r) one $v "$lib_digest" "$here/node/Cargo.toml" release/libsimnode.so "$out/libs/$v.so" --release --features limb32 & ;;
        n64c) one $v "$lib_digest" "$here/node/Cargo.toml" debug/libsimnode.so "$out/libs/$v.so" & ;;
        n32c) one $v "$lib_digest" "$here/node/Cargo.toml" debug/libsimnode.so "$out/libs/$v.so" --features limb32,noasm & ;;
        *) echo "unknown build $v" >&2; exit 2 ;;
    esac
    pids+=($!)
done
bad=0
for p in "${pids[@]}"; do wait "$p" || bad=1; done
exit $bad
