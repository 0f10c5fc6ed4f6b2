#!/bin/bash
# usage: build.sh DIR    builds the crate for 32-bit WebAssembly, along with a standard library for it
set -eu
dir=$1
cd "$(dirname "$0")"
root=$(rustc +nightly --print sysroot)
host=$(rustc +nightly -vV | sed -n 's/^host: //p')
target=wasm32-unknown-unknown
std=$root/lib/rustlib/src/rust/library
sysroot=$dir/sysroot/lib/rustlib/$target/lib
mkdir -p "$dir"
if [ ! -e "$dir/sysroot.done" ]; then
	rm -rf "$dir/sysroot" "$dir/std"
	RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zforce-unstable-if-unmarked cargo +nightly build --quiet --offline --locked --release \
		--manifest-path "$std/sysroot/Cargo.toml" --target $target --target-dir "$dir/std" \
		--config 'source.crates-io.replace-with="std"' --config "source.std.directory=\"$std/vendor\""
	mkdir -p "$sysroot"
	find "$dir/std/$target" \( -name '*.rlib' -o -name '*.rmeta' \) -exec cp {} "$sysroot/" \;
	rm -rf "$dir/std"
	touch "$dir/sysroot.done"
fi
RUSTFLAGS="--sysroot $dir/sysroot -Clink-arg=-zstack-size=8388608 -Clinker=$root/lib/rustlib/$host/bin/rust-lld" \
	cargo +nightly build --quiet --offline --release --target $target --target-dir "$dir/out"
cp "$dir/out/$target/release/undname_wasm.wasm" "$dir/undname.wasm"
