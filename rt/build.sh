#!/bin/bash
# Builds the search program inside the module of the code under test, through an overlay.
# usage: build.sh OUT [REPO]
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || true
ov=$(mktemp /tmp/vcrtov.XXXXXX)
trap 'rm -f "$ov"' EXIT
mk() {
  echo '{"Replace":{'
  local sep= f
  for f in "$here"/*.go; do
    printf '%s"%s":"%s"' "$sep" "$repo/internal/vcrt/$(basename "$f")" "$f"; sep=,
  done
  for f in "$@"; do
    printf '%s"%s":"%s"' "$sep" "$repo/zz_$(basename "$f")" "$f"
  done
  echo '}}'
}
mk "$here"/inpkg/*.go > "$ov"
cd "$repo" || exit 1
go build -overlay "$ov" -o "$out" ./internal/vcrt && exit 0
# the helper inside the package does not fit any more: do without it
for keep in vcrttab vcrtopts; do
  mk "$here"/inpkg/vcrtapi.go "$here"/inpkg/$keep.go > "$ov"
  go build -overlay "$ov" -o "$out" ./internal/vcrt 2>/dev/null && exit 0
done
mk "$here"/inpkg/vcrtapi.go > "$ov"
go build -overlay "$ov" -o "$out" ./internal/vcrt
