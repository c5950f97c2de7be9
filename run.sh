#!/bin/bash
# run.sh ID            decides property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
# run.sh ID replay F   executes the case recorded in the replay file F again
# run.sh build         builds the monitors (setup)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
root=$(cd "$(dirname "$0")" && pwd) || exit 2
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
[ "$2" = replay ] && file=$(realpath "$3")
cd "$root/harness" || exit 2
id=$1
build() { go build "$@" -o "$tmp/mon" . || { echo "the monitors do not build" >&2; exit 2; }; }
case $id in
build) build && build -race; exit $? ;;
C03|C22) build -race ;;
*) build ;;
esac
if [ "$2" = replay ]; then
	"$tmp/mon" replay -file "$file"
else
	"$tmp/mon" check -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$root" -tmp "$tmp"
fi
