#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh build                       only build the simulator
# exit 0: held on everything explored; 1: violated (VIOLATION line); 2: error
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
# build FOLDER FLAGS: the simulator, with or without the Python part of up4
build() {
    export CARGO_TARGET_DIR="$here/sim/$1" RUSTFLAGS="$2 -A warnings"
    if ! (cd "$here/sim" && cargo build --offline) >"$log" 2>&1; then
        cat "$log"
        echo "ERROR: the simulator does not build against /repo"
        exit 2
    fi
}
python="--cfg up4_sim --cfg up4_sim_python"
case "$prop" in
build)
    build target "--cfg up4_sim"
    build target-python "$python"
    exit 0
    ;;
P30|P35|P36|P37|P38) build target-python "$python" ;;
*) build target "--cfg up4_sim" ;;
esac
case "$tier" in
thorough) runs=100000000 secs=600 ;;
*) runs=60000 secs=25; tier=quick ;;
esac
# deep runs cost more per seed
case "$tier:$prop" in
quick:P27|quick:P28|quick:P26|quick:P41) secs=35 ;;
esac
"$CARGO_TARGET_DIR/debug/up4sim" check "$prop" tier="$tier" seed="$seed" \
    runs="${VERIF_RUNS:-$runs}" secs="${VERIF_SECS:-$secs}" jobs="${VERIF_JOBS:-$(nproc)}" \
    evidence="$here/evidence/$prop.json" replays="$here/replays" known="$here/known-findings.txt"
code=$?
case $code in 0|1|2) exit $code ;; *) echo "ERROR: the simulator ended with $code"; exit 2 ;; esac
