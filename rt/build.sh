#!/bin/bash
# rt/build.sh OUTDIR [nowhen] [noargs] : builds the driver from /repo's working tree (sources and headers);
# nowhen leaves out the when_all/when_any operations, noargs those with arguments: they are slow to compile
set -e
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
mkdir -p "$OUT"
CXX=${CXX:-g++}
FL="-std=c++17 -O1 -g1 -fno-omit-frame-pointer -w -I$REPO -I$HERE"
INS="-fsanitize=thread --param tsan-distinguish-volatile=0"
pids=()
objs=()
cc() { # src obj flags
  $CXX $FL $3 -c "$1" -o "$2" &
  pids+=($!)
  objs+=("$2")
}
when="0 1 2 3 4 5 6 7"
args="0 1 2 3"
for o in "${@:2}"; do
  [ "$o" = nowhen ] && when="-1"
  [ "$o" = noargs ] && args="-1"
done
cc "$HERE/ctl.cpp" "$OUT/ctl.o" "-O2"
for n in $when; do cc "$HERE/drv_when.cpp" "$OUT/drv_when$n.o" "$INS -DPART=$n"; done
for n in $args; do cc "$HERE/drv_args.cpp" "$OUT/drv_args$n.o" "$INS -DPART=$n"; done
for f in driver drv_fut drv_sync drv_pool; do cc "$HERE/$f.cpp" "$OUT/$f.o" "$INS"; done
i=0
while IFS= read -r f; do
  cc "$f" "$OUT/lib$i.o" "$INS"
  i=$((i+1))
done < <(find "$REPO/threadpp" -name '*.cpp' -o -name '*.cc' | sort)
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || exit 3
# the variables of the library in sections of their own, so that the runtime can tell them from those of the driver
for o in "$OUT"/lib*.o; do objcopy --rename-section .bss=tppbss --rename-section .data=tppdata "$o"; done
$CXX -rdynamic -o "$OUT/driver" "${objs[@]}" -ldl -lpthread
