#!/bin/bash
# check.sh <property> [quick|thorough]      decide one property
# check.sh replay <file>                    re-run a replay file
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/lib.sh"
crate_of() {
  case "$1" in
    C15|C18|C19|C28) echo "dexcheck unitcheck" ;;
    C30|C31|C32|C33|C34|C40|C41) echo "poolcheck poolcheck" ;;
    C35|C36|C38) echo "proxycheck proxycheck" ;;
    C29|C39|C42|C43) echo "crankcheck crankcheck" ;;
    C37) echo "ownercheck ownercheck" ;;
    *) echo "dexcheck dexcheck" ;;
  esac
}
if [ "$1" = replay ]; then
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
else
  id="$1"
fi
set -- "$id" "$@"
id="$1"; shift
read -r crate bin <<<"$(crate_of "$id")"
build "$crate" "$bin" || exit 2
if [ "$1" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/$bin" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$id" "${2:-quick}"
