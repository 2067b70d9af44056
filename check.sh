#!/bin/bash
# check.sh PROPERTY [TIER]: decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off GOTELEMETRY=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
bash "$here/setup.sh" >&2 || exit 2
exec "$here/bin/mavcheck" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${REPO:-/repo}" -verif "$here"
