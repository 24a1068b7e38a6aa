#!/bin/bash
# usage: check.sh ID  -- builds the analyser and decides one property on /repo's working tree
set -u
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export VERIF_DIR="$PWD" VERIF_REPO="${VERIF_REPO:-/repo}"
mkdir -p .bin evidence
(cd checker && go build -o ../.bin/checker .) || { echo "cannot build the analyser"; exit 2; }
export GOFLAGS=-mod=readonly
exec ./.bin/checker "$@"
