#!/bin/bash
# check.sh <property> quick|thorough [--seed N] [--only CASE]
# Exit 0: held on everything explored. 1: violation. 2: no build. 3: inconclusive.
here=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=${2:-quick}
shift 2
if [ "$id" = C24 ]; then
  exec python3 "$here/memcheck.py" "$tier" "$@"
fi
"$here/build.sh" native || exit 2
exec "$here/target/release/uwuhi-monitor" run "$id" --tier "$tier" "$@"
