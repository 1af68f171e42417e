#!/bin/bash
# builds demo.c with the runtime of the repository and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99

gcc -std=gnu11 -O1 -g -w $DEMO_CFLAGS -I"$R/include" -I"$R/_build" -I"$R/runtime/link/socket" -I"$D" \
    "$D/demo.c" "$R/_build/runtime/libgracht_static.a" -lpthread -o "$T/demo" || { echo "demo does not build"; exit 0; }
cd "$T" || exit 99
timeout 120 ./demo
rc=$?
cd /
find "$T" -mindepth 1 -delete; rmdir "$T"
exit $rc
