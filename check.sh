#!/bin/bash
# check.sh ID             decides property ID on /repo's working tree
# check.sh --replay FILE  runs the case of a replay file again
# check.sh --setup        builds everything
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$g/go" ] && PATH="$g:$PATH" && break
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOENV=off
export GOCACHE="$VERIF_DIR/.build/gocache" CGO_ENABLED=1
[ -n "${GOPATH:-}" ] || export GOPATH=/root/go
export VH_BIN="$VERIF_DIR/.build/bin"
mkdir -p "$VH_BIN" "$GOCACHE"
REPO="${VERIF_REPO:-/repo}"
cd "$VERIF_DIR/harness" || exit 2

# The module files are made anew: nothing of the build is kept in git, and
# building leaves the committed files as they are.
modfile() { # variant
  local m="$VERIF_DIR/.build/go-$1.mod"
  sed "s#=> /repo#=> $REPO#" go.mod > "$m"
  [ "$1" = san ] && echo "replace github.com/roy2220/fsm => $VERIF_DIR/fsmsan" >> "$m"
  cp go.sum "$VERIF_DIR/.build/go-$1.sum"
  echo "$m"
}

build() { # variant
  local m flags=()
  m=$(modfile "$1")
  case $1 in
    san) flags=(-tags san) ;;
    race) flags=(-race) ;;
  esac
  go build -modfile "$m" "${flags[@]}" -o "$VH_BIN/vh-$1" . || { echo "build of $1 failed" >&2; exit 2; }
}

case "${1:-}" in
  --setup) build real; build san; build race; echo built; exit 0 ;;
  --replay) build real; build san; build race; exec "$VH_BIN/vh-real" replay "$2" ;;
  "") echo "usage: $0 ID" >&2; exit 2 ;;
esac
build real
for v in $("$VH_BIN/vh-real" variants "$1"); do
  [ "$v" = real ] || build "$v"
done
exec "$VH_BIN/vh-real" drive "$1"
