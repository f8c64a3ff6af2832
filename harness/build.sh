#!/bin/bash
# Builds the replay driver against /repo's working tree. Output: .work/target/debug/drv
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-05-20-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=1 CARGO_PROFILE_TEST_DEBUG=1 RUSTC_WRAPPER=
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
W=$V/.work
mkdir -p $W/vendor
# The vendored crates lack some non-source files listed in their checksums, so a fresh build
# uses links to the same sources with an empty file list.
for d in /opt/vp/ws/vendor/*/; do
  n=$(basename "$d")
  [ -f "$W/vendor/$n/.cargo-checksum.json" ] && continue
  mkdir -p "$W/vendor/$n"
  for f in "$d"*; do ln -sfn "$f" "$W/vendor/$n/$(basename "$f")"; done
  python3 - "$d" "$W/vendor/$n" <<'P'
import json, sys
c = json.load(open(sys.argv[1] + '/.cargo-checksum.json'))
json.dump({'files': {}, 'package': c.get('package')}, open(sys.argv[2] + '/.cargo-checksum.json', 'w'))
P
done
export CARGO_TARGET_DIR=$W/target
cd $V/harness || exit 2
exec cargo build --offline "$@"
