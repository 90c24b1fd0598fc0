#!/bin/bash
# Build every check binary once (the checks rebuild what changed).
set -eu
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/env.sh"
pbt_fresh
cargo build -q --offline --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$PBT_TARGET"
pbt_build_cli
