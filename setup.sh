#!/bin/bash
# builds everything once
cd /verif || exit 2
. ./build.sh
mkdir -p target/gen evidence
export VERIF_GENERATED=/verif/target/gen/receivers-1-60.rs
python3 tools/genrecv.py 1 60 "$VERIF_GENERATED" || exit 1
b harness "" icacheck icacheck || exit 1
for f in "" query staking query,staking full channel; do b library "$f" libcheck "lib-${f:-none}" || exit 1; done
for f in query ""; do b receiver "macros,$f" recvcheck "recv-${f:-none}" || exit 1; done
b owner "" libownerhost.so libownerhost.so || exit 1
b apps "" appcheck appcheck || exit 1
published || exit 1
exit 0
