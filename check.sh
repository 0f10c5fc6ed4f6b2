#!/bin/bash
# usage: check.sh ID [quick|thorough]   decides one property on /repo's working tree
#        check.sh build                 builds the harness only
#        check.sh replay FILE           runs one failing case again
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$here"

# what's built has to be what's there, whatever the times of the files say
now=$(find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mark=target/repo.sha256
if [ "$(cat "$mark" 2>/dev/null)" != "$now" ]; then
	cargo clean --offline --release -p undname >/dev/null 2>&1
	mkdir -p target
fi
if ! cargo build --offline --release >target/build.log 2>&1; then
	cat target/build.log
	exit 2
fi
echo "$now" >"$mark"
# C23 also runs the code under Miri
case ${1-} in
build | C23 | replay)
	mark=target/interp.sha256
	if [ "$(cat "$mark" 2>/dev/null)" != "$now" ]; then
		rm -rf "$here/harness/target/interp"
	fi
	: >target/none.txt
	if ! MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline --quiet --manifest-path "$here/interp/Cargo.toml" --target-dir "$here/harness/target/interp" -- target/none.txt >target/interp.log 2>&1; then
		cat target/interp.log
		[ "${1-}" = C23 ] && exit 2
	fi
	echo "$now" >"$mark"
	;;
esac
# C24 also runs it on other platforms
case ${1-} in
build | C24 | replay)
	mark=target/platforms.sha256
	if [ "$(cat "$mark" 2>/dev/null)" != "$now" ]; then
		rm -rf "$here/harness/target/wasm/out" "$here/harness/target/interp/s390x-unknown-linux-gnu"
	fi
	: >target/none.txt
	if ! "$here/wasm/build.sh" "$here/harness/target/wasm" >target/platforms.log 2>&1 ||
		! MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline --quiet --target s390x-unknown-linux-gnu --manifest-path "$here/interp/Cargo.toml" --target-dir "$here/harness/target/interp" -- target/none.txt >>target/platforms.log 2>&1; then
		cat target/platforms.log
		[ "${1-}" = C24 ] && exit 2
	fi
	echo "$now" >"$mark"
	;;
esac
# in the thorough tier, some of the workers are guided by what of the code they reach
case ${1-}-${2-} in
C0[135-9]-thorough | C1[0-7]-thorough | C2[0-2]-thorough)
	mark=target/guided.sha256
	if [ "$(cat "$mark" 2>/dev/null)" != "$now" ]; then
		CARGO_TARGET_DIR=target/guided cargo clean --offline --release -p undname >/dev/null 2>&1
	fi
	if RUSTC_WRAPPER="$here/harness/guided.sh" CARGO_TARGET_DIR=target/guided cargo build --offline --release >target/guided.log 2>&1; then
		echo "$now" >"$mark"
		export VERIF_GUIDED_EXE="$here/harness/target/guided/release/verif"
	else
		tail -5 target/guided.log
	fi
	;;
esac
case ${1-} in
build) exit 0 ;;
replay) exec target/release/verif replay "$2" ;;
*) exec target/release/verif check "$1" "${2-quick}" ;;
esac
