#!/bin/bash
# builds the extractor and the harness binaries (each check rebuilds what it needs anyway)
cd "$(dirname "$0")" || exit 1
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p build evidence
CARGO_TARGET_DIR=$PWD/build/vx cargo build --release --offline -q --manifest-path vx/Cargo.toml || exit 1
for b in $(python3 -c "
import json
print(' '.join(sorted({h for c in json.load(open('checks.json')).values() for h in c['harness']})))"); do
  CARGO_TARGET_DIR=$PWD/build/harness cargo build --offline -q --manifest-path harness/Cargo.toml --bin $b --features $b 2>/dev/null || echo "harness $b does not build"
done
git checkout -q -- harness/Cargo.lock vx/Cargo.lock 2>/dev/null
exit 0
