#!/bin/bash
# usage: check.sh ID [quick|thorough]   |   check.sh build   |   check.sh replay FILE
# Rebuilds the harness against /repo's working tree, then runs one property's check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
export CARGO_TARGET_DIR="$PWD/target"
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER="$2"
log=$(mktemp /tmp/vp-build.XXXXXX)
build() { cargo build --offline --locked --manifest-path harness/Cargo.toml "$@" >>"$log" 2>&1; }
if ! build; then
  # an interface one property's check uses may have changed: build what the wanted one needs
  case "$1" in
    C[0-9][0-9]) id=${1,,} ;;
    replay) id=$(sed -n 's/.*"property": *"\(C[0-9][0-9]\)".*/\1/p' "$2" | head -1); id=${id,,} ;;
    *) id= ;;
  esac
  if [ -n "$id" ] && build --no-default-features --features "$id,deep"; then
    echo "built for $1 only" >&2
  elif [ -n "$id" ] && build --no-default-features --features "$id"; then
    echo "built for $1 only, without what is not needed to load a profile" >&2
  else
    cat "$log" >&2; rm -f "$log"; echo "harness does not build" >&2; exit 3
  fi
fi
rm -f "$log"
bin=target/debug/vp-check
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" run "$1" ;;
esac
