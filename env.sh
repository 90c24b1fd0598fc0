# Sourced by check.sh and setup.sh.
export PBT_HOME="$HERE"
export PBT_TARGET="${PBT_TARGET:-$HERE/target}"
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null

# cargo decides by modification times what is stale; a tree that was put back or patched with old
# times must still be rebuilt, so the sources' contents are stamped.
pbt_sources_hash() {
  (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.toml' \) -print0 \
     | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
pbt_fresh() {
  mkdir -p "$PBT_TARGET"
  local h; h="$(pbt_sources_hash)"
  if [ "$(cat "$PBT_TARGET/.repo-stamp" 2>/dev/null)" != "$h" ]; then
    rm -rf "$PBT_TARGET"/debug/.fingerprint/phlite* "$PBT_TARGET"/debug/.fingerprint/pbt*
    rm -rf "$PBT_TARGET"/cli/debug/.fingerprint/phlite*
    echo "$h" > "$PBT_TARGET/.repo-stamp"
  fi
}
pbt_build() {
  pbt_fresh
  local log="$PBT_TARGET/build-$1.log"
  cargo build -q --offline --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$PBT_TARGET" --bin "$1" 2>"$log" || { cat "$log" >&2; return 1; }
}
pbt_build_cli() {
  CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 cargo build -q --offline --locked --manifest-path /repo/Cargo.toml \
    -p phlite_rips --bin phlite_rips_cli --target-dir "$PBT_TARGET/cli" 2>"$PBT_TARGET/build-cli.log" || { cat "$PBT_TARGET/build-cli.log" >&2; return 1; }
}
