#!/bin/bash
# ./replay.sh FILE: runs the case of a replay file against /repo's working tree
cd /verif || exit 2
. ./build.sh
f=$(realpath "$1")
read -r id build seed < <(python3 -c 'import json,sys;v=json.load(open(sys.argv[1]));print(v["property"],v.get("build") or "-",v.get("seed",1))' "$f")
case $id-$build in
C18-none | C18-query)
    mkdir -p target/gen
    export VERIF_GENERATED=/verif/target/gen/receivers-$seed-240.rs
    python3 tools/genrecv.py "$seed" 240 "$VERIF_GENERATED"
    b receiver "macros,${build#none}" recvcheck recv-replay && exec target/bin/recv-replay replay "$f"
    ;;
C19-* | C21-*) b library "${build#none}" libcheck lib-replay && exec target/bin/lib-replay replay "$f" ;;
C26-*) b library channel libcheck lib-replay && exec target/bin/lib-replay replay "$f" ;;
C27-*) b harness "" icacheck icacheck && published && exec target/bin/icacheck replay "$f" ;;
C28-* | C29-*) b owner "" libownerhost.so libownerhost.so && b apps "" appcheck appcheck && exec target/bin/appcheck replay "$f" ;;
*) b harness "" icacheck icacheck && exec target/bin/icacheck replay "$f" ;;
esac
exit 2
