#!/bin/bash
# Builds the little program beside this file against /repo, in a temporary folder, and lets expect.py judge what it prints.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
exec python3 "$(cd "$(dirname "$0")" && pwd)/expect.py"
