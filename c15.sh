#!/bin/bash
# Sourced by run.sh, for its variables and functions: builds concheck with instrumented library sources.
out="$B/conc"
rm -rf "$out"; mkdir -p "$out"
gobuild real "$B/instrument" ./cmd/instrument || die "build failed"
"$B/instrument" "$VERIF_REPO" "$VERIF_DIR/overlay" "$out" || die "instrumenting failed"
pgp_tags
if gobuild fast "$B/concheck" ./cmd/concheck -race -overlay "$out/overlay.json" $TAGS 2> "$out/race.log"; then
  export VERIF_RACE=1
else
  cat "$out/race.log" >&2
  gobuild fast "$B/concheck" ./cmd/concheck -overlay "$out/overlay.json" $TAGS || die "build failed"
fi
