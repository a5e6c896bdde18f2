#!/bin/bash
# dump.sh REPO OUT TARGETDIR [extra rustflags]
REPO=$1; OUT=$2; TGT=$3; shift 3
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/debug/mirdump LV_CRATE=linfa_linalg LV_OUT=$OUT
cd $REPO && touch -c src/lib.rs 2>/dev/null; cargo +nightly check --offline --lib --target-dir $TGT "$@" 2>&1 | tail -3
