#!/bin/bash
# Decides one property: bash /verif/check.sh <ID> [--replay FILE]
#   exit 0 held, exit 1 + "VIOLATION property=<ID> replay=<path>" broken, anything else: error of the check
# bash /verif/check.sh --build      builds every harness package (used by setup_cmd)
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VP_ROOT="$ROOT"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$ROOT/target" CARGO_INCREMENTAL=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

package_of() {
  case "$1" in
    C01|C02|C03|C04) echo p_dense ;;
    C05|C06) echo p_math ;;
    C07|C08|C09|C11) echo p_algo ;;
    C12|C13|C14|C15) echo p_sparse ;;
    C16|C17) echo p_stat ;;
    C18|C19|C20|C21|C22) echo p_tensor ;;
    C23|C24|C25|C26) echo p_ode ;;
    C27|C28|C29|C30) echo p_pde ;;
    C31|C32|C33|C34|C35|C36|C37|C10) echo p_nonlin ;;
    C38) echo p_cli ;;
    *) echo "" ;;
  esac
}

build() { # build <package>
  local pkg="$1"
  mkdir -p "$CARGO_TARGET_DIR"
  (
    flock 9
    # The build scripts of /repo do not watch their C code: an unused macro with its hash makes them run again.
    CFLAGS="-DC_CODE_HASH=0x$(cd /repo && find russell_*/c_code -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)"
    export CFLAGS
    # Cargo trusts file times; a content stamp makes sure that a changed tree is rebuilt whatever its times are.
    local now old stamp="$CARGO_TARGET_DIR/repo-content.stamp"
    now="$(cd /repo && find russell_*/src russell_*/c_code russell_*/build.rs russell_*/Cargo.toml Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
    old="$(cat "$stamp" 2>/dev/null)"
    if [ "$now" != "$old" ]; then
      if [ -n "$old" ]; then
        rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/russell_*
      fi
      echo "$now" > "$stamp"
    fi
    cargo build --quiet --offline --release --manifest-path "$ROOT/harness/$pkg/Cargo.toml" >"$CARGO_TARGET_DIR/build-$pkg.log" 2>&1
  ) 9>"$CARGO_TARGET_DIR/.build.lock"
}

if [ "$1" = "--build" ]; then
  status=0
  for d in "$ROOT"/harness/p_*/; do
    pkg="$(basename "$d")"
    if ! build "$pkg"; then
      echo "build of $pkg failed"; tail -n 40 "$CARGO_TARGET_DIR/build-$pkg.log"; status=2
    fi
  done
  exit $status
fi

ID="$1"
PKG="$(package_of "$ID")"
if [ -z "$PKG" ]; then echo "unknown property '$ID'"; exit 2; fi
if ! build "$PKG"; then
  echo "ERROR: build of $PKG failed"
  tail -n 60 "$CARGO_TARGET_DIR/build-$PKG.log"
  exit 2
fi
BIN="$CARGO_TARGET_DIR/release/$PKG"
if [ "$2" = "--replay" ]; then exec "$BIN" replay "$3"; fi
if [ "$2" = "--law" ]; then shift 2; exec "$BIN" law "$ID" "$@"; fi
exec "$BIN" run "$ID"
