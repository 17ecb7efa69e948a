#!/bin/bash
# check.sh ID        explore property ID (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh replay F  replay a violation
# check.sh setup     warm the build caches
# The simulator is built from /repo's working tree every time.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export PATH="$PATH:/usr/local/go/bin" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOTOOLCHAIN=local
export VERIF_DIR="$here"
mkdir -p "$here/bin"

# build plain|race|mirror|386
#   mirror: the byte-order code of big-endian machines, on this machine
#   386: a 32-bit build
build() {
  local flags="-tags verif" env="" ld="" repo="${VERIF_REPO:-/repo}"
  [ "$1" = race ] && flags="$flags -race"
  [ "$1" = 386 ] && env="GOARCH=386 CGO_ENABLED=0"
  local out="$here/bin/sim-$1.$$"
  if [ -n "${VERIF_REPO:-}" ]; then # development only: another tree than /repo
    mod="$here/bin/go.$$.mod"
    sed "s#=> /repo#=> $VERIF_REPO#" "$here/sim/go.mod" > "$mod"
    cp "$here/sim/go.sum" "${mod%.mod}.sum"
    flags="$flags -modfile $mod"
  fi
  if [ "$1" = mirror ]; then
    be="$here/bin/be.$$"
    sed '/^\/\/go:build/d' "$repo/packedrtree/native_bigendian.go" > "$be.go"
    printf '{"Replace": {"%s": "%s"}}\n' "$repo/packedrtree/native_littleendian.go" "$be.go" > "$be.json"
    flags="$flags -overlay $be.json"
    ld="-X main.mirror=1"
  fi
  bins+=("$out")
  bin="$out"
  (cd "$here/sim" && env $env go build $flags -ldflags "$ld" -o "$out" . ) >&2
}
must() {
  if ! build "$1"; then
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
  fi
}
# variant NAME: use another build for a share of the runs, where there is one.
variant() {
  if build "$1"; then
    VERIF_VARIANTS="${VERIF_VARIANTS:+$VERIF_VARIANTS,}$1=$bin"
  else
    echo "check.sh: no $1 build; its runs are made with the plain one" >&2
  fi
}
finish() {
  local f
  for f in "${bins[@]}" $mod ${mod:+${mod%.mod}.sum} ${be:+$be.go $be.json}; do rm -f -- "$f"; done
  true
}
bins=()
mod=
be=
unset VERIF_VARIANTS
trap finish EXIT

kind() { case "$1" in C15|C16) echo race;; *) echo plain;; esac; }

case "${1:-}" in
  setup)
    must plain
    must race
    build mirror
    build 386
    true
    ;;
  replay)
    b=$(grep -m1 -o '"build": *"[a-z0-9]*"' "$2" | grep -o '[a-z0-9]*"$' | tr -d '"')
    case "$b" in plain|race|mirror|386) must "$b";; *) echo "not a replay file: $2" >&2; exit 2;; esac
    "$bin" replay "$2"
    exit $?
    ;;
  C*)
    case "$1" in C02|C03|C04|C05) variant mirror;; esac
    if [ "${VERIF_TIER:-}" = thorough ] && [ "$(kind "$1")" = plain ]; then variant 386; fi
    must "$(kind "$1")"
    export VERIF_VARIANTS
    "$bin" check "$1"
    exit $?
    ;;
  *)
    echo "usage: check.sh ID | replay FILE | setup" >&2
    exit 2
    ;;
esac
