#!/bin/bash
# run.sh ID quick|thorough          decide one property
# run.sh ID replay FILE             run a replay file
# run.sh build                      build all (warms the build cache)
#
# The check binary is built from the current tree of /repo, in a temporary folder.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
unset GOROOT_FINAL

tmp=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
export TMPDIR=$tmp

build() { # command [flags]
	local name=$1
	shift
	(cd "$here/harness" && go build "$@" -o "$tmp/$name" "./cmd/$name") || {
		echo "cannot build $name from /repo" >&2
		exit 2
	}
}

if [ "$1" = build ]; then
	for name in $(ls "$here/harness/cmd"); do
		if [ "$name" = conc ]; then build conc -race; else build "$name"; fi
	done
	echo built
	exit 0
fi

id=$1
mode=${2:-${VERIF_TIER:-quick}}
flags=()
case $id in
C0[1-9] | C1[0-2]) name=text ;;
C1[3-6] | C19) name=hyph ;;
C17 | C28) name=mixed ;;
C18) name=conc flags=(-race) ;;
C20) name=trie ;;
C2[1-7]) name=line ;;
C29 | C30) name=tools ;;
*)
	echo "unknown property $id" >&2
	exit 2
	;;
esac
build "$name" "${flags[@]}"

if [ "$name" = tools ]; then
	export VERIF_TOOLS=$tmp
	for source in terminal/runes/build_tables.go wordbreak/hyphenator/languages/strip_comments.go; do
		(cd "/repo/${source%/*}" && go build -o "$tmp/$(basename "$source" .go)" "${source##*/}") || {
			echo "cannot build $source" >&2
			exit 2
		}
	done
fi

[ "$name" = conc ] && export GORACE="halt_on_error=1 exitcode=66"

if [ "$mode" = replay ]; then
	"$tmp/$name" -property "$id" -root "$here" -replay "$3"
else
	"$tmp/$name" -property "$id" -root "$here" -tier "$mode"
fi
code=$?
[ "$mode" = replay ] || grep "^KNOWN-FINDING: property=$id " "$here/known_findings.txt" 2>/dev/null
exit $code
