#!/bin/bash
# check.sh ID: builds the harness (and for C16 the command-line tool, for C22 the Go binding) from /repo's working tree and
# decides property ID. check.sh build: only builds.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PV_VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
unset POSSUM_EMULATE_FREEBSD RUST_LOG
# /repo's build script rewrites a tracked header; it comes out as it was.
H=/repo/go/cpossum/possum.h
T=$(mktemp -d) || exit 2
[ -f $H ] && cp -p $H "$T/possum.h"
restore() {
    if [ -f "$T/possum.h" ] && ! cmp -s "$T/possum.h" $H; then cp -p "$T/possum.h" $H; fi
}
trap 'restore; rm -rf "$T"' EXIT
build() {
    (cd harness && RUSTC_WRAPPER=$PV_VERIF/tools/rustc-cov CARGO_TARGET_DIR=$PV_VERIF/target cargo build --offline --locked) >"$T/log" 2>&1 ||
        { grep -E '^error' -A12 "$T/log" | head -60; tail -5 "$T/log"; echo "ERROR: harness build failed"; exit 2; }
    if [ "$1" = C16 ] || [ "$1" = build ]; then
        cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin possum --target-dir "$PV_VERIF/target/cli" >"$T/log" 2>&1 ||
            { tail -40 "$T/log"; echo "ERROR: command-line tool build failed"; exit 2; }
    fi
    if [ "$1" = C22 ] || [ "$1" = build ]; then
        cargo build --offline --locked --manifest-path /repo/Cargo.toml --lib --target-dir "$PV_VERIF/target/golib" >"$T/log" 2>&1 ||
            { tail -40 "$T/log"; echo "ERROR: library build failed"; exit 2; }
        # Go doesn't notice that the library changed, unless something else does.
        L=$PV_VERIF/target/golib/debug
        S=$(sha256sum "$L/libpossum.a") || { echo "ERROR: no libpossum.a"; exit 2; }
        (cd go && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 GOCACHE=$PV_VERIF/target/gocache \
            CGO_LDFLAGS=-L$L go build -race -ldflags "-X main.stamp=${S%% *}" -o ../target/go/pvgo .) >"$T/log" 2>&1 ||
            { head -40 "$T/log"; echo "ERROR: Go build failed"; exit 2; }
    fi
    restore
}
build "$1"
[ "$1" = build ] && exit 0
export PV_CLI=$PV_VERIF/target/cli/debug/possum PV_GO=$PV_VERIF/target/go/pvgo
target/debug/pv run "$1"
