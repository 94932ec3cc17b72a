# sourced by run.sh: builds everything into $VB (git-ignored)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_DIR="$here" VERIF_REPO=${VERIF_REPO:-/repo}
export VB=${VERIF_BUILD:-"$here/.build"}
verif_build() {
    local id=$1 xc race=""
    mkdir -p "$VB" || return 1
    # golang.org/x/crypto with a fast stand-in for scrypt that is only active under VERIF_KDF=fast
    xc=$(cd "$VERIF_REPO" && go list -m -f '{{.Dir}}' golang.org/x/crypto) || return 1
    if [ ! -f "$VB/xcrypto/.done" ]; then
        rm -rf "$VB/xcrypto"; cp -r "$xc" "$VB/xcrypto" && chmod -R u+w "$VB/xcrypto" || return 1
        python3 "$here/harness/patch_scrypt.py" "$VB/xcrypto/scrypt/scrypt.go" || return 1
        touch "$VB/xcrypto/.done"
    fi
    cp "$VERIF_REPO/go.mod" "$VB/repo.mod" && cp "$VERIF_REPO/go.sum" "$VB/repo.sum" || return 1
    printf '\nreplace golang.org/x/crypto => %s\n' "$VB/xcrypto" >> "$VB/repo.mod"
    { sed -e 's#^module .*#module verif/harness#' "$VERIF_REPO/go.mod"
      printf '\nrequire github.com/aarondl/bpass v0.0.0\n\nreplace github.com/aarondl/bpass => %s\n' "$VERIF_REPO"
      printf '\nreplace golang.org/x/crypto => %s\n' "$VB/xcrypto"; } > "$VB/harness.mod"
    cp "$VERIF_REPO/go.sum" "$VB/harness.sum" || return 1
    [ "$id" = C29 ] && race="-race"
    (cd "$VERIF_REPO" && go build $race -modfile="$VB/repo.mod" -o "$VB/bpass" . ) || return 1
    (cd "$here/harness" && go build $race -modfile="$VB/harness.mod" -o "$VB/vrun" . ) || return 1
}
verif_build "$1"
