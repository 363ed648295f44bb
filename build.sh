#!/bin/bash
# build.sh [sim|simi|all]: builds the simulators against /repo's current working tree. `sim` covers the two
# crates, `simi` also has the integrator sources of /repo/src, which no package of the repository builds.
# Cargo decides by file times whether a path dependency changed; a content stamp makes sure that a changed
# tree is never taken for built.
set -u
here=$(cd "$(dirname "$0")" && pwd)
what=${1:-all}
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9

sums() { find "$@" -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum; }

# one NAME TARGET PACKAGES... with the content sums on stdin
one() {
  local name=$1 target=$2 stamp
  shift 2
  export CARGO_TARGET_DIR=$target
  stamp=$(sha256sum | cut -d' ' -f1)
  mkdir -p "$target"
  if [ "$(cat "$target/.stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$target/.stamp"
    local p=()
    for x in "$@"; do p+=(-p "$x"); done
    (cd "$here/$name" && cargo clean --offline -q "${p[@]}" 2>/dev/null)
  fi
  (cd "$here/$name" && cargo build --offline --locked -q 2>"$target/build.log") || { cat "$target/build.log" >&2; echo "build of $name failed" >&2; exit 2; }
  echo "$stamp" > "$target/.stamp"
}

if [ "$what" != simi ]; then
  (cd /repo && sums crates; sha256sum /repo/Cargo.toml; cd "$here" && sums sim) | one sim "$here/target" linear nonlinear sim || exit 2
fi
if [ "$what" != sim ]; then
  bash "$here/ida/gen.sh" "$here/target/gen" || { echo "cannot lay out the integrator crate" >&2; exit 2; }
  (cd /repo && sums crates; sha256sum /repo/Cargo.toml; cd "$here" && sums sim simi ida target/gen) | one simi "$here/target/i" linear nonlinear ida ndarray failure failure_derive simi || exit 2
fi
exit 0
