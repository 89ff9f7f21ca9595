#!/bin/bash
# Warms the build cache: builds the harness (plain and race) and the command line program once.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
S="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 1
trap 'case "$S" in /tmp/verif.????????) rm -rf "$S";; esac' EXIT
cp -r "$VERIF/harness" "$S/src" || exit 1
cd "$S/src" || exit 1
go build -cover -covermode=set -coverpkg=verifharness,github.com/KarmaPenny/pdfparser/pdf -o "$S/h" . || exit 1
go build -race -o "$S/hr" . || exit 1
cd /repo && go build -o "$S/cli" . || exit 1
mkdir -p "$VERIF/evidence" "$VERIF/replays"
echo "setup done"
