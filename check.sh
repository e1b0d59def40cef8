#!/bin/bash
# check.sh setup | <property> [quick|thorough] | replay <file> | one <property> <run>
# Rebuilds everything from the current tree of /repo and runs the simulator.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
out="$here/target"
mkdir -p "$out"

build() {
	exec 9>"$out/lock"
	flock 9
	if [ "$here/shim/swcsim.c" -nt "$out/libswcsim.so" ] || [ "$here/shim/swcsim.h" -nt "$out/libswcsim.so" ]; then
		gcc -O2 -g -Wall -Wextra -fPIC -shared -fvisibility=hidden -o "$out/libswcsim.so.new" "$here/shim/swcsim.c" -ldl || return 1
		mv "$out/libswcsim.so.new" "$out/libswcsim.so"
	fi
	(cd "$here/sim" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$here/sim/target" cargo build --release --offline --quiet) || return 1
	# The code under test. Content decides what is rebuilt, not modification times.
	local hash
	hash="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
	if [ "$(cat "$out/swc.stamp" 2>/dev/null)" != "$hash" ] || [ ! -x "$out/swc/debug/subweight-web" ] || [ ! -x "$out/swc/debug/subweight" ]; then
		rm -f "$out/swc.stamp"
		export RUSTUP_TOOLCHAIN=1.80.0 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$out/swc"
		(cd /repo && { cargo clean --offline --quiet -p subweight-core -p subweight -p subweight-web 2>/dev/null; cargo build --offline --workspace --bins --quiet --locked; }) || return 1
		echo "$hash" >"$out/swc.stamp"
	fi
	flock -u 9
	exec 9>&-
}

if ! build >"$out/build.log" 2>&1; then
	tail -40 "$out/build.log"
	echo "the build failed"
	exit 3
fi
export SWCSIM_ROOT="$here" SWCSIM_WEB="$out/swc/debug/subweight-web" SWCSIM_CLI="$out/swc/debug/subweight" SWCSIM_SHIM="$out/libswcsim.so" SWCSIM_STATIC=/repo/web/static
pages=(node --experimental-vm-modules --no-warnings "$here/pages/check.mjs")
case "${1:-} ${2:-}" in
"replay "*) grep -q '"property": *"C\(19\|20\|21\|22\)"' "$2" && exec "${pages[@]}" "$@" ;;
"one C19" | "one C20" | "one C21" | "one C22") exec "${pages[@]}" "$@" ;;
esac
case "${1:-}" in
C19 | C20 | C21 | C22) exec "${pages[@]}" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
setup) echo "built" ;;
replay | one | twice) exec "$here/sim/target/release/swcsim" "$@" ;;
C*) exec "$here/sim/target/release/swcsim" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*)
	echo "usage: $0 setup | <property> [quick|thorough] | replay <file> | one <property> <run>"
	exit 2
	;;
esac
