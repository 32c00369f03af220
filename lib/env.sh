# Sourced by check and setup: Go environment and harness builds. Everything is
# written below $VERIF/.build (git-ignored); /repo and /opt/vp are only read.
export HOME="${HOME:-/root}" TZ=UTC
for d in /opt/veriftools/go1.24.13/bin; do [ -d "$d" ] && PATH=$d:$PATH; done
export PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOTELEMETRY=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS=
REPO=${REPO:-/repo}
B=$VERIF/.build
mkdir -p "$B"
if ! (mkdir -p "$GOCACHE" && [ -w "$GOCACHE" ]) 2>/dev/null; then
  export GOCACHE=$B/gocache; mkdir -p "$GOCACHE"
fi

# overlay_json FILE EXTRA...: map every harness source into /repo/zzverif
verif_overlay() {
  local out=$1; shift
  {
    printf '{"Replace":{\n'
    local first=1 f
    for f in "$VERIF"/harness/*.go; do
      [ $first = 1 ] || printf ',\n'; first=0
      printf '"%s/zzverif/%s":"%s"' "$REPO" "$(basename "$f")" "$f"
    done
    for f in "$VERIF"/vrt/*.go; do
      printf ',\n"%s/zzvrt/%s":"%s"' "$REPO" "$(basename "$f")" "$f"
    done
    [ -n "${1:-}" ] && [ -s "$1" ] && { printf ',\n'; cat "$1"; }
    printf '\n}}\n'
  } > "$out"
}

verif_modfile() {
  cp "$REPO/go.mod" "$B/dp.mod" && cp "$REPO/go.sum" "$B/dp.sum" || return 1
  export GOFLAGS="-mod=mod -modfile=$B/dp.mod"
}

verif_build() {
  verif_modfile || return 1
  HARNESS=$B/harness
  verif_overlay "$B/overlay.json"
  (cd "$REPO" && go build -overlay "$B/overlay.json" -o "$HARNESS" ./zzverif) || return 1
  case "${1:-}" in
    C04|C05) verif_instr map,clock;;
    C01) verif_instr sync; verif_instr_race; verif_alt race -race;;
    C21) verif_alt re2 -tags re2_wasm;;
  esac
  return 0
}

# verif_instr MODE: a harness with the library rewritten by vinstr; leaves
# VERIF_INSTR empty if the present code can't be rewritten.
verif_instr() {
  local m=$1 d=$B/instr-${1//,/-}
  export VERIF_INSTR=
  rm -rf "$d"; mkdir -p "$d"
  (cd "$VERIF/vinstr" && GOFLAGS= go build -o "$B/vinstr" main.go) || return 0
  "$B/vinstr" -repo "$REPO" -out "$d" -mode "$m" > "$d/lines" 2> "$d/err" || { cat "$d/err" >&2; return 0; }
  verif_overlay "$d/overlay.json" "$d/lines"
  (cd "$REPO" && go build -overlay "$d/overlay.json" -o "$d/harness" ./zzverif) || return 0
  export VERIF_INSTR=$d/harness VERIF_SITES=$d/sites.json
}

# verif_instr_race: the rewritten harness with the race detector.
verif_instr_race() {
  export VERIF_INSTR_RACE=
  [ -n "$VERIF_INSTR" ] || return 0
  (cd "$REPO" && go build -race -overlay "$B/instr-sync/overlay.json" -o "$B/instr-sync/harness-race" ./zzverif) || return 0
  export VERIF_INSTR_RACE=$B/instr-sync/harness-race
}

# verif_alt NAME FLAGS...: another build of the plain harness, in VERIF_ALT.
verif_alt() {
  local n=$1; shift
  export VERIF_ALT=
  (cd "$REPO" && go build "$@" -overlay "$B/overlay.json" -o "$B/harness-$n" ./zzverif) || return 0
  export VERIF_ALT=$B/harness-$n
}
