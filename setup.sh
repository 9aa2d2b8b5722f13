#!/bin/bash
# Build the harness once, offline, to show that it builds; each check builds its own variant.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
exec cargo build --quiet --offline --manifest-path harness/Cargo.toml --no-default-features --features all --target-dir "$PWD/harness/target/all"
