#!/bin/bash
# builds the tools from the committed files, and warms the build caches the checks reuse
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
(cd mirdump && CARGO_TARGET_DIR=/verif/build/mirdump cargo +nightly build --offline -q)
python3-vt - <<'P'
import sys; sys.path.insert(0,'/verif')
from vf import replay
for v in ('dev','release','asan'): replay.build(v)
P
