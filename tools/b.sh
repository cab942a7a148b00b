#!/bin/sh
python3 /verif/tools/mkws.py && cd /verif/build/ws && RUSTUP_TOOLCHAIN=1.72 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/target cargo build "$@"
