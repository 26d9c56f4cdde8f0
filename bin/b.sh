#!/bin/bash
# dev helper: build the symbolic IR
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd /verif/hk && rm -f /verif/build/sym/release/deps/hk-* && touch src/lib.rs && cargo rustc --offline --release --lib --crate-type staticlib --target-dir /verif/build/sym -- --emit=llvm-ir -C save-temps 2>&1 | grep -E "^(error|warning: unused)|-->" ; ls /verif/build/sym/release/deps/hk-*.ll | grep -v cgu | xargs -I{} cp {} /verif/build/hk.ll
