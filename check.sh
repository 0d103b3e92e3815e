#!/bin/bash
# check.sh ID [quick|thorough | -replay FILE | other flags of the checker]
# Builds the checker of a property against /repo's current working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
args=()
case "$1" in quick|thorough) args+=(-tier "$1"); shift;; esac
work=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 3
trap 'find "$work" -delete' EXIT
case "$id" in
  C21) pkg=bit; race=;;
  C23) pkg=conc; race=;;
  C24|C25|C26|C27|C32) pkg=tool; race=;;
  *) pkg=pub; race=;;
esac
if ! bash "$here/harness/build.sh" $pkg "$work/bin" $race >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "check.sh: the checker does not build against ${REPO:-/repo}" >&2
  exit 3
fi
if [ "$pkg" = conc ]; then
  if ! bash "$here/harness/build.sh" conc "$work/race/bin" -race >"$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    exit 3
  fi
  export MC_RACEBIN=$work/race/bin
fi
if [ "$pkg" = tool ]; then
  if ! (cd "${REPO:-/repo}" && CGO_ENABLED=0 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -buildvcs=false -o "$work/mp4tool" ./cmd/mp4tool) >"$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    exit 3
  fi
  export MP4TOOL=$work/mp4tool
fi
"$work/bin" -p "$id" -root "$here" "${args[@]}" "$@"
exit $?
