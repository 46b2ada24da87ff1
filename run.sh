#!/bin/bash
# run.sh <property> quick|thorough    run one property's check
# run.sh replay <replay file>         run one recorded case again
# run.sh setup                        build everything once
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export VERIF_REPO="${VERIF_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
B="$VERIF_DIR/.build"
mkdir -p "$B" "$VERIF_DIR/evidence"

die() { echo "run.sh: $*" >&2; exit 3; }

# prepare: module copies with the idealised Argon2 and module files pointing at them.
prepare() {
  (
    flock 9
    local mod; mod="$(go env GOMODCACHE)"
    if ! cmp -s "$VERIF_DIR/overlay/argon2.go" "$B/xcrypto/argon2/argon2.go"; then
      rm -rf "$B/xcrypto"
      cp -r "$mod/golang.org/x/crypto@v0.4.0" "$B/xcrypto" && chmod -R u+w "$B/xcrypto" || exit 1
      cp "$VERIF_DIR/overlay/argon2.go" "$B/xcrypto/argon2/argon2.go" || exit 1
    fi
    sed "s#=> /repo#=> $VERIF_REPO#" "$VERIF_DIR/harness/go.mod" > "$B/real.mod.new"
    { cat "$B/real.mod.new"; echo; echo "replace golang.org/x/crypto => $B/xcrypto"; } > "$B/fast.mod.new"
    for f in real fast; do
      cmp -s "$B/$f.mod.new" "$B/$f.mod" || cp "$B/$f.mod.new" "$B/$f.mod"
      cp "$VERIF_DIR/harness/go.sum" "$B/$f.sum"
    done
  ) 9> "$B/lock" || die "prepare failed"
}

# gobuild <mod> <output> <package> [flags...]
gobuild() {
  local m="$1" o="$2" p="$3"; shift 3
  ( cd "$VERIF_DIR/harness" && go build -modfile "$B/$m.mod" "$@" -o "$o" "$p" ) || return 1
}

# build_lib: the library checks; without the parts that name package pgp if its exported names have changed.
TAGS=
build_lib() {
  gobuild fast "$B/libcheck" ./cmd/libcheck && return 0
  gobuild fast "$B/libcheck" ./cmd/libcheck -tags nopgp
}
pgp_tags() {
  TAGS=
  gobuild fast "$B/libcheck" ./cmd/libcheck 2> /dev/null || TAGS="-tags nopgp"
}

build_cli() { gobuild fast "$B/mnemonikey" github.com/kklash/mnemonikey/cmd/mnemonikey; }

# build_rand: the program with the operating system's random generator replaced by a file (VERIF_RAND).
build_rand() {
  local src; src="$(go env GOROOT)/src/crypto/rand"
  sed 's/^var Reader io.Reader = rand.Reader$/var Reader io.Reader = source()/' "$src/rand.go" > "$B/crypto_rand.go.new"
  grep -q '= source()' "$B/crypto_rand.go.new" || return 1
  cmp -s "$B/crypto_rand.go.new" "$B/crypto_rand.go" || cp "$B/crypto_rand.go.new" "$B/crypto_rand.go"
  printf '{"Replace": {"%s": "%s", "%s": "%s"}}\n' "$src/rand.go" "$B/crypto_rand.go" \
    "$src/zz_verif.go" "$VERIF_DIR/overlay/crypto_rand_verif.go" > "$B/rand.json"
  gobuild fast "$B/mnemonikey.rand" github.com/kklash/mnemonikey/cmd/mnemonikey -overlay "$B/rand.json"
}

# judged <property> <command...>: run a check; if the code under test takes the whole process down
# (stack overflow, fatal runtime error), that is a violation too.
judged() {
  local id="$1"; shift
  local log="$B/$id.stderr" rc
  "$@" 2> "$log"; rc=$?
  cat "$log" >&2
  if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -q '^fatal error\|^panic' "$log" && grep -q 'github.com/kklash/mnemonikey' "$log"; then
    mkdir -p "$VERIF_DIR/replays"
    cp "$log" "$VERIF_DIR/replays/$id-crash.log"
    echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id-crash.log"
    rc=1
  fi
  exit $rc
}

run_one() {
  local id="$1"
  prepare
  case "$id" in
    C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C14|C16|C17|C18|C35)
      build_lib || die "build failed"
      if [ "$id" = C05 ]; then
        gobuild real "$B/realcheck" ./cmd/realcheck || die "build failed"
        export VERIF_REALCHECK="$B/realcheck"
      fi
      judged "$id" "$B/libcheck" "$id" ;;
    C19|C20|C21|C22|C23|C24|C25|C26|C27|C28|C29|C30|C31|C33|C34|C36)
      build_cli && gobuild fast "$B/clicheck" ./cmd/clicheck || die "build failed"
      VERIF_CLI="$B/mnemonikey" judged "$id" "$B/clicheck" "$id" ;;
    C32)
      build_rand && gobuild fast "$B/clicheck" ./cmd/clicheck || die "build failed"
      VERIF_CLI="$B/mnemonikey.rand" judged "$id" "$B/clicheck" "$id" ;;
    C15)
      . "$VERIF_DIR/c15.sh"
      judged C15 "$B/concheck" ;;
    *) die "unknown property $id" ;;
  esac
}

case "${1:-}" in
  setup)
    prepare
    build_lib && gobuild fast "$B/clicheck" ./cmd/clicheck && build_cli || die "build failed"
    gobuild real "$B/realcheck" ./cmd/realcheck || die "build failed"
    build_rand || die "build failed"
    ( . "$VERIF_DIR/c15.sh" ) ;;
  replay)
    [ -f "${2:-}" ] || die "no such file: ${2:-}"
    eval "$(python3 - "$2" <<'PY'
import json,sys,shlex
d=json.load(open(sys.argv[1]))
print("export VERIF_REPLAY_CASE=%s VERIF_TIER=%s RID=%s" % (shlex.quote(d["case"]), shlex.quote(d["tier"]), shlex.quote(d["property"])))
PY
)"
    run_one "$RID" ;;
  C*)
    case "${2:-quick}" in quick|thorough) export VERIF_TIER="${2:-quick}" ;; *) die "tier?" ;; esac
    run_one "$1" ;;
  *) die "usage: run.sh <property> quick|thorough | replay <file> | setup" ;;
esac
