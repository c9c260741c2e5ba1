#!/bin/bash
# Nothing has to be built beforehand: every check builds its harness crate from the current tree. Make sure the tools work.
set -e
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
cargo kani --version
mkdir -p evidence .build
