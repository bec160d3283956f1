# sourced: vbuild PROPERTY OUTDIR builds OUTDIR/vh (and what it needs) from /repo
REPO=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
export CGO_ENABLED=${CGO_ENABLED:-1}

overlay() { # overlay OUT: maps harness sources into the module
  { echo '{"Replace":{'; local first=1
    (cd "$here/harness" && find . -name '*.go' | LC_ALL=C sort) | while read -r f; do
      f=${f#./}; [ $first = 1 ] || echo ','; first=0
      printf '"%s":"%s"' "$REPO/internal/zverif/$f" "$here/harness/$f"
    done
    echo '}}'; } > "$1"
}

vbuild() {
  local prop=$1 W=$2 pkg=vh race=
  case $prop in
    C22|C23|C28|C29|C30) pkg=lite;;
    C18) race=-race;;
  esac
  bash "$here/mkmod.sh" "$W/mod" "$REPO" || return 1
  overlay "$W/ov.json"
  (cd "$REPO" && go build $race -overlay "$W/ov.json" -modfile="$W/mod/go.mod" -o "$W/vh" "./internal/zverif/$pkg") || return 1
  case $prop in
    C13|C20|C25|C26|C32|C33|C36|C37|C38) (cd "$REPO" && go build -overlay "$W/ov.json" -modfile="$W/mod/go.mod" -o "$W/deckard" ./internal/cmd/deckard) || return 1;;
  esac
  if [ "$prop" = C37 ]; then mkdir -p "$W/boards" && cp "$REPO"/dashboards/* "$REPO/docs/components.md" "$W/boards/" || return 1; fi
  if [ "$prop" = C36 ]; then mkdir -p "$W/helm" && cp -r "$REPO/helm/." "$W/helm/" || return 1; fi
}
