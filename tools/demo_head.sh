#!/bin/bash
# Demonstration: run in the root of the repository after it was built.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$PWD/target"
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
touch -c src/lib.rs
cargo build --offline --locked -q --lib 2>/dev/null || { echo "build failed"; exit 2; }
rustc --edition 2021 -A warnings -o "$tmp/probe" "$here/probe.rs" -L "dependency=$CARGO_TARGET_DIR/debug/deps" \
  --extern "ruruby_parse=$CARGO_TARGET_DIR/debug/libruruby_parse.rlib" || { echo "probe failed"; exit 2; }
bad=0
p() { (ulimit -v 4000000; timeout 20 "$tmp/probe" "$@" 2>"$tmp/err" || echo "EXIT $?"); }
# the tree of program $1 contains $2
has() { o=$(p "$1"); case "$o" in *"$2"*) ;; *) echo "FAIL [$1] expected [$2] got [$o]"; bad=1;; esac; }
# ... does not contain
hasnt() { o=$(p "$1"); case "$o" in *"$2"*) echo "FAIL [$1] unexpected [$2] in [$o]"; bad=1;; esac; }
# two programs have the same tree
same() { a=$(p "$1"); b=$(p "$2"); case "$a" in ERR*|EXIT*|"") echo "FAIL [$1] $a"; bad=1;; esac
  [ "$a" = "$b" ] || { echo "FAIL [$1] [$a] differs from [$2] [$b]"; bad=1; }; }
rejected() { o=$(p "$1"); case "$o" in ERR*) ;; *) echo "FAIL [$1] accepted: [$o]"; bad=1;; esac; }
accepted() { o=$(p "$1"); case "$o" in ERR*|EXIT*|"") echo "FAIL [$1] rejected: [$o]"; bad=1;; esac; }
