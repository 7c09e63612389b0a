#!/bin/bash
# run.sh Cxx [options]: build check Cxx from /repo's working tree and run it.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
id=$1; shift
B=build; SAN=
# checks that judge memory accesses run on an address- and bounds-checked build
case $id in
C16|C17|C19) B=build-san; SAN="-fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer" ;;
esac
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0
make -j8 -s B=$B SAN="$SAN" $B/$id >build.$id.log 2>&1 || { tail -30 build.$id.log; echo "build of $id failed"; rm -f build.$id.log; exit 3; }
rm -f build.$id.log
exec $B/$id "$@"
