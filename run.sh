#!/bin/bash
# run.sh ID            decides property ID on /repo's current working tree (tier: $VERIF_TIER)
# run.sh again FILE    loads the case of a replay file again
# run.sh build         builds the monitor
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS MIRIFLAGS
mkdir -p "$CARGO_TARGET_DIR" || exit 2
# cargo goes by time stamps; the tree may have been changed without newer ones
rm -rf /verif/target/release/.fingerprint/nobject-rs-* /verif/target/*/*/release/.fingerprint/nobject-rs-* /verif/target/miri/*/debug/.fingerprint/nobject-rs-*
log="/verif/target/build.$$.log"
if ! cargo build --release --offline >"$log" 2>&1; then
    echo "check error: the monitor does not build with /repo's tree"
    tail -n 30 "$log"
    rm -f "$log"
    exit 2
fi
rm -f "$log"
bin=/verif/target/release/monitor
case "${1:-}" in
    build) exit 0 ;;
    again)
        head -n 3 "$2"
        read -r p t s c < <(sed -n '1s/[a-z]*=//gp' "$2")
        [ "$c" = run ] && { echo "the texts below are the case; run the check with VERIF_SEED=$s VERIF_TIER=$t"; sed -n '4,$p' "$2"; exit 0; }
        exec "$bin" case "$p" "$t" "$s" "$c" ;;
    C[0-9][0-9]) exec "$bin" check "$1" ;;
    *) echo "usage: run.sh ID | again FILE | build"; exit 2 ;;
esac
