#!/bin/bash
# check.sh PROPERTY quick|thorough: build what is needed from /repo's working tree and run one check.
# check.sh build: build everything (setup).
# Exit 0: holds. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed.
set -u
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS RUST_LOG CARGO_TARGET_DIR LD_LIBRARY_PATH
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL CARGO_BUILD_TARGET
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR
TARGET=$VERIF_DIR/harness/target
export DXL_TARGET=$TARGET

id=${1:?usage: check.sh PROPERTY quick|thorough}
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$TARGET" evidence replays

# Cargo only looks at modification times. Do not rely on those to notice changes.
fresh() {
	local hash
	hash=$(cd /repo && find Cargo.toml Cargo.lock src dynamixel2-cli -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
	if [ "$(cat "$TARGET/source-hash" 2>/dev/null)" != "$hash" ]; then
		rm -f "$TARGET/source-hash"
		if [ -d "$TARGET/debug" ]; then (cd harness && cargo clean -q --offline -p dynamixel2 2>/dev/null); fi
		if [ -d "$TARGET/release" ]; then (cd harness && cargo clean -q --offline --release -p dynamixel2 2>/dev/null); fi
		# The command line tool is part of another workspace.
		if [ -d "$TARGET/cli" ]; then cargo clean -q --offline --manifest-path /repo/Cargo.toml --target-dir "$TARGET/cli" -p dynamixel2 -p dynamixel2-cli 2>/dev/null; fi
		rm -rf "$TARGET"/fd-* "$TARGET"/combo-*
		echo "$hash" > "$TARGET/source-hash"
	fi
}

build() {
	local log=$TARGET/build.log
	if ! "$@" > "$log" 2>&1; then
		echo "build failed: $*"
		grep -E -A12 '^error' "$log" | head -60
		exit 2
	fi
}

build_main() {
	(cd harness && build cargo build --offline --locked -q --bin dxlcheck) || exit 2
}

build_cli() {
	build cargo build --offline --locked -q -p dynamixel2-cli --manifest-path /repo/Cargo.toml --target-dir "$TARGET/cli"
}

fresh
case $id in
	build) build_main; build_cli; exit 0;;
	C29) build_main; build_cli;;
	*) build_main;;
esac

limit=800
[ "$tier" = thorough ] && limit=7200
timeout -k 5 $limit "$TARGET/debug/dxlcheck" "$id" "$tier"
rc=$?
if [ $rc = 124 ] || [ $rc = 137 ]; then
	echo "check ran out of time"
	exit 3
fi
exit $rc
