#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]      (run.sh build: only build)
# Rebuilds the checker against /repo's current working tree and runs one check.
# exit 0: held; exit 1: VIOLATION line printed; anything else: the check itself failed.
cd "$(dirname "$0")/harness" || exit 4
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p target ../work
exec 9>target/.build.lock; flock 9
# cargo trusts mtimes; copies of the tree may carry old ones, so compare contents
sum=$( (cd /repo/base && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd /verif/harness && find src .cargo Cargo.toml Cargo.lock ../vendor -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ ! -x target/release/mc ] || [ "$(cat target/.mc_sum 2>/dev/null)" != "$sum" ]; then
  rm -f target/.mc_sum
  cargo clean --offline --release -p ms_toollib -p mc -p rand >/dev/null 2>&1
  if ! cargo build --release --offline >target/build.log 2>&1; then
    tail -40 target/build.log >&2
    echo "BUILD FAILED" >&2
    exit 5
  fi
  echo "$sum" >target/.mc_sum
fi
# the bindings are crates of their own; a check of a binding also needs the binding built from the working tree
binding() { # name, lib, source folder in /repo
  local dir=/verif/$1 so=$2 src=$3 bsum
  mkdir -p "$dir/target/module"
  bsum=$( (cd /repo && find base/src base/Cargo.toml "$src" -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; cd "$dir" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  [ "$(cat "$dir/target/.sum" 2>/dev/null)" = "$bsum" ] && return 0
  rm -f "$dir/target/.sum"
  ( cd "$dir" && cargo clean --offline --release -p ms_toollib -p "bind_${1#harness_}" >/dev/null 2>&1; cargo build --release --offline >target/build.log 2>&1 ) || { tail -40 "$dir/target/build.log" >&2; echo "BUILD FAILED ($1)" >&2; return 1; }
  case $1 in harness_py)
    cp "$dir/target/release/$so" "$dir/target/module/ms_toollib.so" && gcc -shared -fPIC -O1 -o "$dir/target/libfakeclock.so" "$dir/fakeclock.c" || return 1 ;;
  harness_c)
    gcc -O1 -w -o "$dir/target/driver" "$dir/driver.c" "$dir/target/release/libms_c.a" -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=free -lpthread -ldl -lm || { echo "BUILD FAILED (the C program)" >&2; return 1; } ;;
  esac
  echo "$bsum" >"$dir/target/.sum"
}
case $id in build|C29) binding harness_py libms_toollib.so python_package/src || { [ "$id" = build ] || exit 5; } ;; esac
case $id in build|C30) binding harness_js - wasm/src || { [ "$id" = build ] || exit 5; } ;; esac
case $id in build|C34) binding harness_c - c || { [ "$id" = build ] || exit 5; } ;; esac
exec 9>&-
[ "$id" = build ] && exit 0
exec ./target/release/mc "$id" "$tier"
