#!/bin/bash
# run.sh build              build the simulators
# run.sh ID quick|thorough  decide one property on /repo's working tree
# run.sh replay FILE        repeat a recorded violation
# run.sh show ID SEED RUN   print the event log of one run
# run.sh digests ID SEED N  digests of the first N runs
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_TARGET_DIR=${SIM_TARGET:-$PWD/sim/target} CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
small="C01 C02 C03 C04"
cmd="C09 C10 C11"

build() { # crate
    local log
    log=$(mktemp) || exit 2
    if ! (cd "sim/$1" && cargo build --offline --locked >"$log" 2>&1); then
        echo "ERROR: the simulator '$1' does not build against /repo" >&2
        tail -40 "$log" >&2
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
crate_of() {
    case " $small " in *" $1 "*) echo small; return ;; esac
    case " $cmd " in *" $1 "*) echo cmd ;; *) echo full ;; esac
}

case "$1" in
build)
    build small
    build full
    build cmd
    ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    c=$(crate_of "$id"); build "$c"
    exec "$CARGO_TARGET_DIR/debug/$c" replay "$2"
    ;;
show | digests)
    c=$(crate_of "$2"); build "$c"
    exec "$CARGO_TARGET_DIR/debug/$c" "$@"
    ;;
C*)
    c=$(crate_of "$1"); build "$c"
    exec "$CARGO_TARGET_DIR/debug/$c" check "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
*)
    sed -n 2,6p "$0"; exit 2
    ;;
esac
