#!/bin/bash
# run.sh PROP            decide one property on /repo's working tree
# run.sh -replay FILE    repeat a reported violation
# run.sh -setup          build everything once
# The check is rebuilt from the working tree on every run: mcgen writes an
# instrumented copy of /repo's packages to a scratch directory, and the check
# is compiled against it with a build overlay.  /repo is not touched.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
tier=${VERIF_TIER:-quick}
case "$tier" in quick|thorough) ;; *) tier=quick ;; esac
seed=${VERIF_SEED:-1}
base=/dev/shm
[ -w "$base" ] || base=${TMPDIR:-/tmp}
work=$(mktemp -d "$base/verif-run-XXXXXXXX") || exit 3
cleanup() { case "$work" in */verif-run-????????) rm -rf -- "$work" ;; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM
cd "$verif" || exit 3
log=$work/build.log
go build -o "$work/mcgen" ./cmd/mcgen >"$log" 2>&1 || { cat "$log" >&2; exit 3; }
mode=
for m in full sync none; do
  mkdir -p "$work/ov" "$work/scratch"
  if "$work/mcgen" -repo "$repo" -out "$work/ov" -mode $m >"$log" 2>&1 &&
     go build -overlay "$work/ov/overlay.json" -o "$work/check" ./cmd/check >>"$log" 2>&1; then
    mode=$m
    break
  fi
  echo "instrumentation mode $m cannot be built:" >&2
  head -c 3000 "$log" >&2
  rm -rf -- "$work/ov"
done
[ -n "$mode" ] || exit 3
# the mmvdump command, as it is
if (cd "$repo" && go build -o "$work/mmvdump" ./mmvdump/cmd/mmvdump) >"$log" 2>&1; then
  export VERIF_MMVDUMP=$work/mmvdump
elif [ "${1:-}" = C27 ]; then
  cat "$log" >&2
  exit 3
fi
case "${1:-}" in
-setup) exit 0 ;;
-replay) "$work/check" -replay "$2" -verif "$verif" -scratch "$work/scratch" -mode "$mode" ;;
*) p=$1; shift
   "$work/check" -prop "$p" -tier "$tier" -seed "$seed" -verif "$verif" -scratch "$work/scratch" -mode "$mode" "$@" ;;
esac
rc=$?
exit $rc
