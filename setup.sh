#!/bin/bash
# builds the MIR dumper and warms the dependency builds
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
(cd driver && cargo +nightly build --offline --target-dir ../build/driver 2>&1 | tail -2)
for c in all def; do ./dump.sh $c; done
