#!/bin/bash
# Builds the simulator from the committed files, offline.
cd "$(dirname "$0")/sim" || exit 2
cargo build --release --offline || exit
# used by F21 alone, which builds again and reports it if this fails
cargo build --release --offline --features ffi --target-dir target-ffi || true
