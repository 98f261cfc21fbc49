#!/bin/bash
# usage: run.sh <property id>            check the property against /repo's working tree
#        run.sh <property id> --thorough the deep exploration (the same as VERIF_TIER=thorough)
#        run.sh <property id> <replay>   re-run one saved case
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS='-mod=mod -buildvcs=false' GOWORK=off GONOSUMDB='*' GOFLAGS
id="$1"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/harness" "$scratch/harness" || exit 2
cd "$scratch/harness" || exit 2
if ! go test -c -o "$scratch/h.test" ./h >"$scratch/build.log" 2>&1; then
  echo "build of the harness against /repo failed:" >&2
  cat "$scratch/build.log" >&2
  exit 2
fi
export VERIF_PROP="$id" VERIF_DIR="$here" VERIF_SCRATCH="$scratch" TMPDIR="$scratch"
if [ "${2:-}" = --thorough ]; then export VERIF_TIER=thorough
elif [ $# -ge 2 ]; then export VERIF_REPLAY="$2"; fi
"$scratch/h.test"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
