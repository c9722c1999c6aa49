#!/bin/bash
# irbuild.sh OUT.ll [overflow] : compile harness + /repo crates to one LLVM module
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=${SYM_BUILD:-$HERE/.build}
OUT=$1
mkdir -p $B
LOCKSEED=/opt/vp/Cargo.lock.seed
TC=$(ls -d ~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu)
LB=$TC/lib/rustlib/x86_64-unknown-linux-gnu/bin
T=$B/ir-target${2}
cd $HERE/harness
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
export RUSTFLAGS="--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -Zub-checks=no -Zshare-generics=no"
if [ "$2" = rel ]; then export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false; fi
cargo build --release --offline --target x86_64-unknown-linux-gnu --target-dir $T >$B/ir$2.log 2>&1 || { cat $B/ir$2.log; exit 3; }
cd $T/x86_64-unknown-linux-gnu/release/deps
$LB/llvm-link -o $B/all$2.bc *.bc
$LB/opt -S --passes='internalize,globaldce' '--internalize-public-api-list=h_*' $B/all$2.bc -o $OUT.tmp
mv $OUT.tmp $OUT
