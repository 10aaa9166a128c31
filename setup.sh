#!/bin/bash
# Builds everything once (the checks rebuild what has changed since).
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" native || exit 1
"$here/build.sh" asan || exit 1
"$here/build.sh" miri || exit 1
