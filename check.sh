#!/bin/bash
# check.sh ID quick|thorough      decide a property
# check.sh replay FILE            run a replay file again
# check.sh survey ID N [SEED]     all violations of N runs, for work on the harness
# check.sh trace ID SEED          the scenario of a seed and its trace
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" REPO_DIR="${REPO_DIR:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOCACHE="$VERIF_DIR/.build/gocache" GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p .build evidence || exit 3
bin=$(mktemp /tmp/simcheck.XXXXXX) || exit 3
trap 'rm -f "$bin"' EXIT
(cd sim && go build -o "$bin" ./cmd/simcheck) || exit 3
case "$1" in
replay|survey|trace|build) "$bin" "$@" ;;
*) "$bin" check "$1" "${2:-quick}" ;;
esac
