#!/bin/bash
# usage: check.sh <ID> [--replay FILE | --case WORKLOAD INDEX [SEED]]
# Builds the monitor of one property against /repo's current working tree and runs it.
# Exit 0: held on everything explored. 1: VIOLATION printed. 2: no verdict (build or harness trouble).
id=${1:?usage: check.sh ID}
shift
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
stamp || { echo "INCONCLUSIVE property=$id: cannot read /repo"; exit 2; }
log=$(mktemp)
if ! build "$bin" >"$log" 2>&1; then
    tail -n 40 "$log"
    rm -f "$log"
    echo "INCONCLUSIVE property=$id: the harness does not build against this tree"
    exit 2
fi
rm -f "$log"
"$CARGO_TARGET_DIR/release/$bin" "$@"
rc=$?
case $rc in
0 | 1 | 2) exit $rc ;;
*)
    echo "INCONCLUSIVE property=$id: monitor process ended with status $rc"
    exit 2
    ;;
esac
