#!/bin/bash
# run.sh build            build the checks from /repo's working tree
# run.sh ID [args...]     build, then run the check for property ID
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
build() {
  # cargo decides by file times; make sure that any content change rebuilds
  local now stamp="$CARGO_TARGET_DIR/repo.sum"
  mkdir -p "$CARGO_TARGET_DIR" || return 1
  now=$( (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
    (cd harness && cargo clean --offline -p websocket -p websocket-base >/dev/null 2>&1)
  fi
  (cd harness && cargo build --offline --quiet 2> "$CARGO_TARGET_DIR/build.log") || { tail -n 40 "$CARGO_TARGET_DIR/build.log"; return 1; }
  echo "$now" > "$stamp"
}
build || { echo "ERROR the harness does not build"; exit 2; }
[ "$1" = build ] && exit 0
CHECK="$CARGO_TARGET_DIR/debug/check"
"$CHECK" "$@"
rc=$?
# ended by a signal (abort, stack overflow, ...): find the case that does it
case $rc in
132|133|134|135|136|138|139)
  prev=
  for a in "$@"; do
    [ "$prev" = --replay ] && { echo "VIOLATION property=$1 replay=$a"; exit 1; }
    prev=$a
  done
  dir=$(mktemp -d) || exit 2
  trap 'rm -r "$dir"' EXIT
  VERIF_TRACE=$dir "$CHECK" "$@" >/dev/null 2>&1
  for f in "$dir"/*.json; do
    [ -f "$f" ] || continue
    "$CHECK" "$1" --replay "$f" >/dev/null 2>&1
    if [ $? -ge 128 ]; then
      mkdir -p "replays/$1"
      cp "$f" "replays/$1/crash-$(basename "$f")"
      echo "the process is ended by a signal while it works on this case"
      echo "VIOLATION property=$1 replay=$VERIF_DIR/replays/$1/crash-$(basename "$f")"
      exit 1
    fi
  done
  echo "ERROR the check crashed (exit code $rc) and no single case reproduces it"
  exit 2
  ;;
esac
exit $rc
