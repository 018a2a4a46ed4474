#!/bin/bash
# check.sh PROPERTY | build | replay FILE: builds the simulator against /repo's
# current working tree with the hooks on, then runs the check of the property,
# or replays a violation from its replay file.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/sim/target"
export RUSTFLAGS="--cfg systre_sim"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 9>"$CARGO_TARGET_DIR/.check-lock"
flock 9
# Do not rely on time stamps: if the contents of the sources differ from what
# was built last, forget what was built of them.
now="$(cd /repo && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
$(cd "$here/sim" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)"
stamp="$CARGO_TARGET_DIR/.built-from"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \
        \( -name 'rust-systre-*' -o -name 'systre-sim-*' \) -exec rm -r {} + 2>/dev/null
fi
log="$CARGO_TARGET_DIR/.build-log"
build() { (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; }
if ! build; then
    # A hook may no longer fit the code it looks into. Do without those that
    # do not build: what they show is then seen in another way or not at all.
    hooks="cgd automorphisms settings operators"
    fits() {
        (cd "$here/sim" && RUSTFLAGS="$1" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/hooks" \
            cargo check --offline --locked -p rust-systre) >/dev/null 2>&1
    }
    without() { echo "--cfg systre_sim_without=\"$1\""; }
    none=""
    for h in $hooks; do none="$none $(without $h)"; done
    missing=""
    for h in $hooks; do
        if ! fits "--cfg systre_sim ${none/ $(without $h)/}"; then
            missing="$missing $(without $h)"
            echo "note: the hook for $h does not build"
        fi
    done
    full="$RUSTFLAGS"
    RUSTFLAGS="$full$missing"
    built=no
    if [ -n "$missing" ] && build; then built=yes; fi
    if [ $built = no ]; then
        # The library's traits may ask for more than the simulator's own
        # labels and numbers offer: use the library's types only.
        RUSTFLAGS="$full$missing --cfg sim_plain"
        if build; then
            built=yes
            echo "note: done with the library's own labels and numbers"
        fi
    fi
    if [ $built = no ]; then
        # Something else has changed its form: do without the parts of the
        # simulator that this property does not need.
        id="${1:-}"
        if [ "$id" = replay ]; then id="$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)"; fi
        case "$id" in
            C0[1-5]) parts="cgd";;
            C0[678]) parts="table";;
            C09) parts="graph table";;
            C1[0-9]|C20|C34|C38) parts="graph";;
            C21|C22) parts="part";;
            C2[3458]|C3[01567]) parts="table spaces";;
            *) parts="";;
        esac
        with=""
        for p in $parts; do with="$with --cfg sim_with=\"$p\""; done
        for own in "" " --cfg sim_plain"; do
            RUSTFLAGS="$full$missing$own --cfg sim_part_only$with"
            if [ $built = no ] && [ -n "$parts" ] && build; then
                built=yes
                echo "note: done with a part of the simulator"
            fi
        done
    fi
    if [ $built = no ]; then
        cat "$log"
        echo "HARNESS ERROR: the build failed"
        exit 2
    fi
fi
echo "$now" >"$stamp"
# Run a copy, so that a concurrent build cannot replace the running program.
if [ "${1:-}" = build ]; then exit 0; fi
exec 9>&-
if [ "${1:-}" = replay ]; then
    exec "$CARGO_TARGET_DIR/release/sim" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/sim" check "$1"
