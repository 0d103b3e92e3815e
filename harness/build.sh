#!/bin/bash
# build.sh PKG OUT [-race]: build harness package PKG against /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
pkg=$1; out=$2; race=$3
work=$(dirname "$out")
mkdir -p "$work"
ov=$work/overlay.$pkg.json
{
  echo '{"Replace":{'
  sep=
  if [ "$pkg" = conc ]; then
    # the conversions between reference values and boxes are shared with the other checkers
    printf '"%s/internal/zzverif/conc/conv.go":"%s/pub/conv.go"' "$repo" "$here"
    sep=$',\n'
  fi
  if [ "$pkg" = conc ]; then
    # the scheduler is asked before statements of the library that use synchronised data
    printf "$sep"; sep=
    printf '"%s/internal/zzverif/point/point.go":"%s/point/point.go",\n' "$repo" "$here"
    if [ -z "$NOPOINT" ] && grep -qE '"sync|\bchan\b' "$repo"/*.go "$repo"/internal/*/*.go; then
      GOTOOLCHAIN=local GOPROXY=off GOFLAGS= go run "$here/instr/main.go" "$work" "$repo" "$repo/internal/bitio" "$repo/internal/util" || true
    fi
  fi
  if [ "$pkg" = tool ]; then
    printf '"%s/internal/zzverif/tool/conv.go":"%s/pub/conv.go",\n"%s/internal/zzverif/tool/grow.go":"%s/pub/grow.go"' "$repo" "$here" "$repo" "$here"
    sep=$',\n'
  fi
  if [ "$pkg" = conc -a "$race" = -race ]; then
    # fmt and sync without pools that order goroutines by chance (see DESIGN.md, C23)
    root=$(GOTOOLCHAIN=local go env GOROOT)
    sed 's|p := ppFree.Get().(\*pp)|p := new(pp)|; s|^\tppFree.Put(p)$|\t_ = p|' "$root/src/fmt/print.go" > "$work/fmt_print.go"
    sed 's|if runtime_randn(4) == 0 {|if false \&\& runtime_randn(4) == 0 {|' "$root/src/sync/pool.go" > "$work/sync_pool.go"
    printf '%s"%s/src/fmt/print.go":"%s/fmt_print.go",\n"%s/src/sync/pool.go":"%s/sync_pool.go"' "$sep" "$root" "$work" "$root" "$work"
    sep=$',\n'
  fi
  for d in mc ref "$pkg"; do
    for f in "$here/$d"/*.go; do
      printf '%s"%s/internal/zzverif/%s/%s":"%s"' "$sep" "$repo" "$d" "$(basename "$f")" "$f"
      sep=$',\n'
    done
  done
  echo '}}'
} > "$ov"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
if [ "$race" = -race ]; then export CGO_ENABLED=1; else export CGO_ENABLED=0; fi
cd "$repo"
if [ "$pkg" = conc -a -z "$NOPOINT" ]; then
  go build -buildvcs=false $race -overlay "$ov" -o "$out" "./internal/zzverif/$pkg" && exit 0
  cd - >/dev/null
  NOPOINT=1 exec bash "$here/build.sh" "$@" # without asking before statements
fi
exec go build -buildvcs=false $race -overlay "$ov" -o "$out" "./internal/zzverif/$pkg"
