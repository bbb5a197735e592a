#!/bin/bash
# Builds the executor, the IR of the harnesses and the native replay. Every check builds what is missing.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
python3 - <<'END'
import sys
sys.path.insert(0, "tools")
import irbuild
lock = irbuild.locked()
irbuild.build_engine()
irbuild.std_ll()
for v in irbuild.VARIANTS:
    irbuild.build_ir(v)
    irbuild.build_native("dev", v)
END
