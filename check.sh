#!/bin/bash
# ./check.sh ID: rebuilds from /repo's working tree and decides property ID. Exit 0 held, 1 violated, other: no answer.
cd /verif || exit 2
. ./build.sh
id=$1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset VERIF_PART VERIF_OUT
ev=/verif/evidence
mkdir -p "$ev/parts"
rm -f "$ev/$id.json" "$ev/parts/$id-"*.json
status=0
# run BINARY: within less memory than the machine has
run() { (ulimit -v 24000000; exec "/verif/target/bin/$1" check "$id"); }
# part NAME BINARY: one of several builds that together decide the property
part() {
    VERIF_PART=$1 run "$2"
    local s=$?
    if [ $s -ne 0 ] && [ $status -ne 1 ]; then status=$s; fi
}
case $id in
C18)
    n=60
    [ "$VERIF_TIER" = thorough ] && n=240
    mkdir -p target/gen
    export VERIF_GENERATED=/verif/target/gen/receivers-$VERIF_SEED-$n.rs
    python3 tools/genrecv.py "$VERIF_SEED" "$n" "$VERIF_GENERATED" || exit 2
    # the macro must not break an enum that compiles with the variant written by hand
    for f in query ""; do
        if ! b receiver "macros,$f" recvcheck "recv-${f:-none}" 2>target/bin/err; then
            if b receiver "$f" recvcheck recv-control 2>/dev/null; then
                mkdir -p "$ev/replay"
                cp "$VERIF_GENERATED" "$ev/replay/C18-receivers.rs"
                cp target/bin/err "$ev/replay/C18-receivers.err"
                cat target/bin/err >&2
                echo "VIOLATION property=C18 replay=$ev/replay/C18-receivers.rs"
                python3 tools/merge.py C18 "the macro's output does not compile"
                exit 1
            fi
            cat target/bin/err >&2
            exit 2
        fi
    done
    b harness "" icacheck icacheck || exit 2
    part query recv-query
    part none recv-none
    part contract icacheck
    python3 tools/merge.py "$id" || exit 2
    ;;
C19 | C21)
    for f in "" query staking query,staking; do
        b library "$f" libcheck "lib-${f:-none}" || exit 2
    done
    if [ "$id" = C19 ]; then b library full libcheck lib-full || exit 2; fi
    for f in none query staking query,staking; do part "$f" "lib-$f"; done
    if [ "$id" = C19 ]; then part full lib-full; fi
    python3 tools/merge.py "$id" || exit 2
    ;;
C26)
    b library channel libcheck lib-channel || exit 2
    run lib-channel
    status=$?
    ;;
C28 | C29)
    b owner "" libownerhost.so libownerhost.so || exit 2
    b apps "" appcheck appcheck || exit 2
    run appcheck
    status=$?
    ;;
C27)
    b harness "" icacheck icacheck || exit 2
    published || exit 2
    run icacheck
    status=$?
    ;;
*)
    b harness "" icacheck icacheck || exit 2
    run icacheck
    status=$?
    ;;
esac
exit $status
