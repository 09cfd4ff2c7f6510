# Shared by the commands in MANIFEST.json: offline build of a check crate from
# /repo's current working tree.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF/target" CARGO_INCREMENTAL=0 VERIF_ROOT="$VERIF"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

# Cargo decides by modification times; this decides by content, so that a
# changed tree is rebuilt whatever its timestamps say.
fresh() {
  local stamp="$CARGO_TARGET_DIR/.repo-hash" h
  h=$(cd /repo && find . -path ./target -prune -o -path ./dex/target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/serum* "$CARGO_TARGET_DIR"/release/.fingerprint/{dexcheck,poolcheck,proxycheck,ownercheck,crank}*
    mkdir -p "$CARGO_TARGET_DIR"
    echo "$h" > "$stamp"
  fi
}

# build <crate> [bin]
build() {
  local log
  log=$(mktemp)
  fresh
  if ! (cd "$VERIF/$1" && cargo build --release --offline --locked --bin "${2:-$1}") >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    rm -f "$log"
    echo "build of $1 failed" >&2
    return 1
  fi
  rm -f "$log"
}
