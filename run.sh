#!/bin/bash
# run.sh <property> [harness options]: build the harness and the command line program
# from /repo's current working tree and run one property's monitor.
set -u
ID="$1"; shift
VERIF="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
SEED="${VERIF_SEED:-1}"
TIER="${TIER:-${VERIF_TIER:-quick}}"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 3
chmod 755 "$SCRATCH"
cleanup() { case "$SCRATCH" in /tmp/verif.????????) rm -rf "$SCRATCH";; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM
cp -r "$VERIF/harness" "$SCRATCH/src" || exit 3
# coverage counters would hide data races from the race detector, so only the other builds have them
MODE="-cover -covermode=set -coverpkg=verifharness,github.com/KarmaPenny/pdfparser/pdf"
case "$ID" in C21) MODE="-race";; esac
if ! (cd "$SCRATCH/src" && go build $MODE -o "$SCRATCH/verifharness" . || go build -tags nodirect $MODE -o "$SCRATCH/verifharness" .) >"$SCRATCH/build.log" 2>&1; then
  echo "BUILD FAILED (harness against /repo)"; cat "$SCRATCH/build.log"; exit 3
fi
if ! (cd /repo && go build -o "$SCRATCH/pdfparser" .) >"$SCRATCH/build.log" 2>&1; then
  echo "BUILD FAILED (/repo)"; cat "$SCRATCH/build.log"; exit 3
fi
chmod 755 "$SCRATCH/verifharness" "$SCRATCH/pdfparser"
mkdir -p "$SCRATCH/run" && chmod 755 "$SCRATCH/run"
GOCOVERDIR="$SCRATCH" "$SCRATCH/verifharness" -prop "$ID" -tier "$TIER" -seed "$SEED" -scratch "$SCRATCH/run" -cli "$SCRATCH/pdfparser" -out "$VERIF" "$@"
exit $?
