#!/bin/bash
# usage: run.sh <property> [quick|thorough]        explore one property
#        run.sh <property> --replay <file>         re-run one recorded counterexample
#        run.sh --build                            only build (used by setup.sh)
# Builds the explorer and (for the properties of the tools) the tools from /repo's working tree.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${MC_REPO:-/repo}"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_INCREMENTAL RUSTFLAGS
mkdir -p "$V/build" "$V/evidence" "$V/replays"
cd "$V" || exit 2
prop="${1:?property}"; shift
needs_tools() { case "$1" in C28|C29|C30|C31|C32|C33|C34|C36|--build) return 0;; *) return 1;; esac; }

# cargo decides by modification times; make sure it sees any change of content
stamp="$(cd "$R" && { find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)"
build() { # name, command...
  local name="$1"; shift
  if [ "$(cat "$V/build/$name.stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$V/build/$name.stamp"
    find "$V/$name" "$V/build/$name" -maxdepth 6 -type d \( -name 'fbas_analyzer-*' -o -name 'ctools-*' \) -path '*/.fingerprint/*' -exec rm -r {} + 2>/dev/null
  fi
  if ! "$@" >"$V/build/$name.log" 2>&1; then
    cat "$V/build/$name.log" >&2
    echo "BUILD FAILED ($name)" >&2
    exit 2
  fi
  echo "$stamp" >"$V/build/$name.stamp"
}
build mc cargo build --release --offline --manifest-path "$V/mc/Cargo.toml"
if needs_tools "$prop"; then
  build tools cargo build --release --bins --offline --manifest-path "$R/Cargo.toml" --target-dir "$V/build/tools"
  build ctools cargo build --release --offline --manifest-path "$V/ctools/Cargo.toml" --target-dir "$V/build/ctools"
  if [ "$V/mc/shim.c" -nt "$V/build/shim.so" ]; then
    gcc -O1 -shared -fPIC -o "$V/build/shim.so" "$V/mc/shim.c" -ldl -lpthread || exit 2
  fi
fi
[ "$prop" = --build ] && exit 0
export MC_VERIF="$V"
[ $# -eq 0 ] && set -- "${VERIF_TIER:-quick}"
exec "$V/mc/target/release/mc" "$prop" "$@"
