#!/bin/bash
# usage: run.sh <property> [quick|thorough] | run.sh setup | run.sh replay FILE
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
. "$ROOT/env.sh"
build() {
  mkdir -p "$ROOT/bin"
  if [ ! -x "$ROOT/bin/govc" ] || [ -n "$(find "$ROOT/tool" -name '*.go' -newer "$ROOT/bin/govc" -print -quit)" ]; then
    (cd "$ROOT/tool" && go build -o "$ROOT/bin/govc.$$" . && mv "$ROOT/bin/govc.$$" "$ROOT/bin/govc") || exit 2
  fi
}
case "$1" in
  setup) build; exit 0 ;;
  replay) build; exec "$ROOT/bin/govc" replay -root "$ROOT" -file "$2" ;;
  *) build; exec "$ROOT/bin/govc" check -root "$ROOT" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
