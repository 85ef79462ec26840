#!/bin/bash
# builds the extractor and the harness (and its dependencies) offline
set -e
cd "$(dirname "$0")"
(cd vx && cargo build --offline --quiet)
(cd hb && RUSTFLAGS="--cap-lints allow" cargo build --offline --quiet)
(cd hb && RUSTFLAGS="--cap-lints allow" cargo build --offline --quiet --features wasm)
