#!/bin/bash
# Builds the executor and the harness bitcode (offline).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import check, registry
check.build_engine()
for c in registry.CRATES: check.build_crate(c); print("built", c, flush=True)
P
