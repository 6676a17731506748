#!/bin/bash
# build.sh OUTDIR [race]: builds the simulator from /repo's working tree.
set -e
out=${1:?}; mode=$2
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
cd "$here"
export GOROOT=/opt/veriftools/go1.25.14
export PATH=$GOROOT/bin:$PATH GOTOOLCHAIN=local GOFLAGS= GO111MODULE=on GOPROXY=off GOSUMDB=off
export GOCACHE=${VERIF_GOCACHE:-$out/gocache}
mkdir -p "$out/src"
(cd tools/mkoverlay && go build -o "$out/mkoverlay" .)
"$out/mkoverlay" -repo "$repo" -goroot "$GOROOT" -modcache "$GOMODCACHE" -out "$out"
rm -rf "$out/src"; cp -a sim "$out/src"
# the harness module takes the repository's own dependency versions
{ printf 'module verif.local/sim\n\ngo 1.25\n\n'
  sed -e '/^module /d' -e '/^go /d' -e '/^toolchain /d' -e '/k8s.io\/client-go =>/d' -e '/k8s.io\/apimachinery =>/d' "$repo/go.mod"
  printf '\nrequire (\n\tgithub.com/ibm-cloud-security/app-identity-and-access-adapter v0.0.0\n\tverif.local/simrt v0.0.0\n)\n'
  printf 'replace github.com/ibm-cloud-security/app-identity-and-access-adapter => %s\n' "$repo"
  printf 'replace verif.local/simrt => ./simrt\n'
  cat "$out/replaces.txt"
} > "$out/src/go.mod"
cp "$repo/go.sum" "$out/src/go.sum"
cd "$out/src"
flags=(-mod=mod -overlay "$out/overlay.json" -o "$out/sim${mode:+-$mode}")
[ "$mode" = race ] && flags+=(-race '-gcflags=verif.local/sim/...=-race=false' '-gcflags=verif.local/simrt/...=-race=false')
go build "${flags[@]}" ./main
