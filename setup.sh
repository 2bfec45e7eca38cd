#!/bin/bash
# Optional: build once so that the first check is fast. Checks build what they need themselves.
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/harness" || exit 1
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --release --offline 2>&1 | tail -1
exit "${PIPESTATUS[0]}"
