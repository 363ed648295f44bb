#!/bin/bash
# Lays out the integrator crate: the sources of /repo/src as they are, the interface modules they miss, the stand-in crates.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
gen=${1:?}
mkdir -p "$gen/src"
rm -rf "${gen:?}/src.new"
cp -r /repo/src "$gen/src.new"
for m in linear nonlinear; do
  if [ ! -e "$gen/src.new/$m.rs" ] && [ ! -e "$gen/src.new/$m" ]; then cp "$here/adapter/$m.rs" "$gen/src.new/$m.rs"; fi
done
# keep time stamps of unchanged files so that nothing is rebuilt needlessly
( cd "$gen/src.new" && find . -type f ) | while read -r f; do
  if ! cmp -s "$gen/src.new/$f" "$gen/src/$f"; then mkdir -p "$(dirname "$gen/src/$f")"; cp "$gen/src.new/$f" "$gen/src/$f"; fi
done
( cd "$gen/src" && find . -type f ) | while read -r f; do [ -e "$gen/src.new/$f" ] || rm -f "$gen/src/$f"; done
rm -rf "${gen:?}/src.new"
cat > "$gen/Cargo.toml.new" <<T
[package]
name = "ida"
version = "0.1.1"
edition = "2021"
[workspace]
[features]
profiler = []
data_trace = []
[dependencies]
log = "0.4"
num-traits = "0.2"
nalgebra = "0.32"
ndarray = { path = "$here/shims/ndarray" }
failure = { path = "$here/shims/failure" }
real_linear = { path = "/repo/crates/linear", package = "linear" }
real_nonlinear = { path = "/repo/crates/nonlinear", package = "nonlinear" }
T
cmp -s "$gen/Cargo.toml.new" "$gen/Cargo.toml" || cp "$gen/Cargo.toml.new" "$gen/Cargo.toml"
rm -f "$gen/Cargo.toml.new"
