#!/bin/bash
# Usage: run.sh <property id>            runs its check (VERIF_TIER, VERIF_SEED)
#        run.sh replay <replay file>     runs the one case of a replay file
# Builds the monitors together with the current tree of /repo in a scratch GOPATH.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
repo=${VERIF_REPO:-/repo}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/zkverif.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/gp/src/github.com/mit-dci" "$scratch/tmp" "$here/evidence"
ln -s "$repo" "$scratch/gp/src/github.com/mit-dci/zksigma"
ln -s "$here/harness/src/vref" "$scratch/gp/src/vref"
ln -s "$here/harness/src/vmon" "$scratch/gp/src/vmon"
export GO111MODULE=off GOPATH="$scratch/gp" GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off GOTMPDIR="$scratch/tmp" TMPDIR="$scratch/tmp"
unset GODEBUG GORACE GOGC GOMAXPROCS
id=${1:?property}
args=()
if [ "$id" = replay ]; then
  file=$(readlink -f "${2:?replay file}")
  id=$(grep -o '"property": *"[A-Z0-9]*"' "$file" | grep -o '[A-Z][0-9]*' | tail -1)
  args=(-replay "$file")
fi
race=
[ "$id" = C20 ] && race=-race
opts=()
if [ "$id" = C16 ]; then
  printf '{"Replace": {"%s/gp/src/github.com/mit-dci/zksigma/btcec/field_verif.go": "%s/harness/overlay/field_verif.go"}}' "$scratch" "$here" >"$scratch/overlay.json"
  opts=(-tags c16 -overlay "$scratch/overlay.json")
fi
cd "$scratch/gp/src/vmon" || exit 2
if [ "$id" = C20 ]; then
  for p in vfirst vfirstz; do
    ln -s "$here/harness/src/$p" "$scratch/gp/src/$p"
    if ! go build -race -o "$scratch/$p.bin" "$p" >"$scratch/build.log" 2>&1; then
      cat "$scratch/build.log" >&2
      exit 2
    fi
  done
  export VFIRST="$scratch/vfirst.bin" VFIRSTZ="$scratch/vfirstz.bin"
fi
if ! go build $race "${opts[@]}" -o "$scratch/vmon" vmon >"$scratch/build.log" 2>&1; then
  cat "$scratch/build.log" >&2
  echo "run.sh: the monitors do not build with this tree" >&2
  exit 2
fi
"$scratch/vmon" -check "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
  -evidence "$here/evidence" -known "$here/known_findings.json" "${args[@]}"
