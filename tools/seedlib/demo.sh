#!/bin/bash
# Builds demo.cpp with the library sources of the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
flags="-g -w -Isrc -IArduino -I$here"
pids=
for f in src/*.cpp; do
  o=$d/$(basename "$f" .cpp).o
  case $f in
  */CreateDefaultStorageForPlatform.cpp|*/EepromInternalStorage.cpp|*/EepromExternalStorage.cpp|*/DueEepromEmulationStorage.cpp|*/FlashStorage.cpp|*/CAN2515.cpp) continue ;;
  esac
  g++ -std=gnu++11 $flags -c "$f" -o "$o" & pids="$pids $!"
done
g++ -std=gnu++17 $flags -c "$here/demo.cpp" -o "$d/demo.o" & pids="$pids $!"
for p in $pids; do wait $p || { echo "build failed"; exit 2; }; done
g++ -o "$d/demo" "$d"/*.o || exit 2
timeout 120 "$d/demo"
