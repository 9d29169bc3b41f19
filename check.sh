#!/bin/bash
# check.sh ID [quick|thorough]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
if [ "$1" = C28 ]; then
  bash "$here/wasm/build.sh"
  case $? in
    0) ;;
    3)
      mkdir -p "$here/evidence/replay"
      cp "$here/target/wasm/build.log" "$here/evidence/replay/C28-build.log"
      echo "the code does not build for wasm32-unknown-unknown without the std feature"
      echo "VIOLATION property=C28 replay=$here/evidence/replay/C28-build.log"
      exit 1 ;;
    *) exit 2 ;;
  esac
fi
exec "$here/target/release/pbt" check "$1" "${2:-quick}"
