#!/bin/bash
# ./run.sh ID quick|thorough [--replay FILE]   rebuilds the model checker from /repo's working tree and runs one check.
# ./run.sh setup                               only builds.
# Exit 0: the property held on everything explored; 1: a VIOLATION line was printed; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=${VERIF_ROOT:-$here}
export PATH=/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} TZ=UTC
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=${CGO_ENABLED:-1}
repo=${VERIF_REPO:-/repo}
out=$here/build
mkdir -p "$out" "$VERIF_ROOT/evidence"
tmp=$(mktemp -d "$out/run.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
bin=$tmp/mc
fail() { cat "$tmp/log"; echo "run.sh: $1"; exit 2; }

if [ "$repo" != /repo ]; then
  # (for development) another copy of the library
  sed "s#=> /repo#=> $repo#" "$here/mc/go.mod" >"$tmp/go.mod" && cp "$here/mc/go.sum" "$tmp/go.sum"
  GOFLAGS="$GOFLAGS -modfile=$tmp/go.mod"
fi

plain() { (cd "$here/mc" && go build -o "$bin" .) >"$tmp/log" 2>&1; }

# sched: the library rewritten for the controlled scheduler; if that is not
# possible, the library as it is, run freely
sched() {
  (cd "$here/rewrite" && GOFLAGS=-buildvcs=false go build -o "$tmp/rewrite" .) >"$tmp/log" 2>&1 || return 1
  "$tmp/rewrite" "$repo" "$here/vsched" "$tmp/ov" "$here/mc/pipes=verifmc/pipes" >"$tmp/log" 2>&1 &&
    (cd "$here/mc" && go build -tags sched -overlay "$tmp/ov/overlay.json" -o "$bin" .) >>"$tmp/log" 2>&1 && return 0
  [ "$1" = strict ] && return 1
  cat "$tmp/log"
  echo "run.sh: the library cannot be run under the controlled scheduler: running it freely"
  rm -rf "$tmp/ov"
  VSCHED_NATIVE=1 "$tmp/rewrite" "$repo" "$here/vsched" "$tmp/ov" >"$tmp/log" 2>&1 &&
    (cd "$here/mc" && go build -tags sched -overlay "$tmp/ov/overlay.json" -o "$bin" .) >>"$tmp/log" 2>&1
}

race() {
  (cd "$here/mc" && CGO_ENABLED=1 go build -race -o "$tmp/mcrace" .) >"$tmp/log" 2>&1 && export MC_RACE=$tmp/mcrace
}

# free: the same programs with the library as it is, under the race detector
free() {
  VSCHED_NATIVE=1 "$tmp/rewrite" "$repo" "$here/vsched" "$tmp/ovn" >"$tmp/log" 2>&1 &&
    (cd "$here/mc" && CGO_ENABLED=1 go build -race -tags sched -overlay "$tmp/ovn/overlay.json" -o "$tmp/mcfree" .) >>"$tmp/log" 2>&1 && export MC_FREE=$tmp/mcfree
}

case "${1:-}" in
setup)
  plain || fail "the checker does not build against /repo"
  sched strict || fail "the scheduler build fails"
  race || echo "no race detector here"
  exit 0
  ;;
C03)
  sched any || fail "the checker does not build against /repo"
  free || echo "run.sh: no race detector here: that part is left out"
  ;;
C04 | C05) sched any || fail "the checker does not build against /repo" ;;
C35)
  sched any || fail "the checker does not build against /repo"
  race || echo "run.sh: no race detector here: that part is left out"
  ;;
C43)
  plain || fail "the checker does not build against /repo"
  (cd "$repo" && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$tmp/report" .) >"$tmp/log" 2>&1 || fail "the report program does not build"
  export MC_REPORT=$tmp/report
  ;;
*) plain || fail "the checker does not build against /repo" ;;
esac
"$bin" "$@"
