#!/bin/bash
# builds the extractor and the native replay harnesses, offline
set -e
cd "$(dirname "$0")"
mkdir -p build/gen evidence replays
python3 - <<'P'
import sys; sys.path.insert(0, ".")
import check, config
check.setup()
import concurrent.futures as f
for pid, p in config.PROPS.items():
    if p.get("native"):
        e = check.native_gen(p)
        if e: print(pid, e)
P
for c in native native_syn; do
  CARGO_TARGET_DIR=$PWD/build/target RUSTFLAGS=-Awarnings cargo build --offline --quiet --manifest-path $c/Cargo.toml --bins --keep-going || true
done
