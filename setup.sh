#!/bin/bash
# Builds the extractor and the audit crate (offline).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never RUSTC_WRAPPER=
python3 -c "from snapver import paths, check; paths.rsdump(); print(check.build_replay()); print(check.build_cli())"
