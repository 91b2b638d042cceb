#!/bin/bash
# check.sh Cxx          decide one property on /repo's working tree (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE  run the real code under a recorded counterexample
# check.sh build        build the engine
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh
build() {
	local tmp
	mkdir -p "$V/bin" && cd "$V/symgo" && tmp="$V/bin/symgo.$$" && go build -o "$tmp" . && mv "$tmp" "$V/bin/symgo"
}
need() {
	[ -x "$V/bin/symgo" ] && [ -z "$(find "$V/symgo" -newer "$V/bin/symgo" -name '*.go' -print -quit)" ]
}
case "${1:-}" in
build) build ;;
replay)
	need || build || exit 2
	exec "$V/bin/symgo" replay -repo "$R" -verif "$V" "$2" ;;
C[0-9][0-9])
	need || build || exit 2
	p="$1"; shift
	exec "$V/bin/symgo" check "$p" -repo "$R" -verif "$V" "$@" ;;
*) echo "usage: check.sh Cxx | replay FILE | build"; exit 2 ;;
esac
