#!/bin/bash
# run.sh ID quick|thorough|replay [FILE]: builds the harness of one check against /repo's working tree and runs it.
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=readonly -buildvcs=false"
VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"; export VERIF_ROOT
export VERIF_REPO="${VERIF_REPO:-/repo}"
id="$1"; tier="$2"
fam="$(awk -v id="$id" '$1==id{print $2}' "$VERIF_ROOT/mc/families.txt")"
[ -n "$fam" ] || { echo "unknown check $id" >&2; exit 2; }
T="$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX")" || exit 2
trap 'chmod -R u+rwx "$T" 2>/dev/null; rm -rf "$T"' EXIT
export VERIF_TMP="$T"
cd "$VERIF_ROOT/mc" || exit 2
if ! go build -o "$T/harness" "./cmd/$fam" 2>"$T/build.log"; then
  cat "$T/build.log" >&2; echo "harness build failed" >&2; exit 3
fi
"$T/harness" "$@"
