#!/bin/bash
# builds the driver from /repo's working tree, and the TLC module override
cd /verif/driver && CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build --release --offline 2>&1 | tail -30
