#!/bin/bash
# check.sh <property id> <quick|thorough> [--replay FILE | --unit NAME | --list]
# Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"; shift 2
export VERIF_TIER="$tier"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
B="${MC_BUILD:-$VERIF_DIR/build}"
build() { CC=gcc CXX=g++ cmake -S "$VERIF_DIR" -B "$B" -G Ninja -DREPO="${MC_REPO:-/repo}" "$1" && cmake --build "$B" --target "$id" -j8; }
if ! build -DFULL=OFF >"$B.$id.log" 2>&1 && ! build -DFULL=ON >"$B.$id.log" 2>&1; then
    cat "$B.$id.log" | tail -40
    echo "check $id: build failed"
    exit 2
fi
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=16"
exec "$B/$id" "$@"
