#!/bin/bash
# Builds the monitors against /repo's current working tree.  build.sh native|asan|miri
# Cargo looks at modification times; what counts here is what the files contain.
set -u
kind=$1
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo
target=$here/target
mkdir -p "$target"
export CARGO_NET_OFFLINE=true XDG_CACHE_HOME=$target/cache
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
exec 9>"$target/lock-$kind"
flock 9
cd "$here/harness" || exit 2
hash=$(
  { cd "$repo" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum
    cd "$here/harness" && find . -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1
)
stamp=$target/stamp-$kind
case $kind in
  native) cmd=(cargo build --release --offline --target-dir "$target")
          clean=(cargo clean --release --offline --target-dir "$target") ;;
  asan)   export RUSTFLAGS=-Zsanitizer=address
          cmd=(cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu --target-dir "$target/asan")
          clean=(cargo +nightly clean --release --offline --target x86_64-unknown-linux-gnu --target-dir "$target/asan") ;;
  miri)   export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
          cmd=(cargo +nightly miri run --offline --no-default-features --target-dir "$target/miri" -- list)
          clean=(cargo +nightly miri clean --offline --target-dir "$target/miri") ;;
  *) exit 2 ;;
esac
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
  "${clean[@]}" -p uwuhi -p uwuhi-async -p uwuhi-monitor >/dev/null 2>&1
  if ! "${cmd[@]}" >"$target/build-$kind.log" 2>&1; then
    tail -40 "$target/build-$kind.log"
    echo "BUILD FAILED ($kind)"
    exit 2
  fi
  echo "$hash" >"$stamp"
fi
exit 0
