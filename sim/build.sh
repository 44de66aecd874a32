#!/bin/bash
# usage: build.sh OUTDIR VARIANT   (VARIANT: asan | cov | plain)   builds the simulator against /repo's current tree
set -e
R=${TALIB_REPO:-/repo}/ta-lib-rt/c; O=$1; V=$2; H=$(cd "$(dirname "$0")" && pwd)
CC=/usr/bin/clang; CXX=/usr/bin/clang++; [ -x $CC ] || { CC=clang; CXX=clang++; }
INC="-I$H -I$R/include -I$R/src/ta_abstract -I$R/src/ta_abstract/frames -I$R/src/ta_common -I$R/src/ta_func"
case $V in
 asan) LF="-O1 -g1 -fsanitize=address -fno-sanitize-address-use-after-scope -fsanitize-coverage=inline-8bit-counters"; HF="-O1 -g1 -fsanitize=address"; LD="-fsanitize=address";;
 plain) LF="-O1 -g1"; HF="-O1 -g1"; LD="";;
 cov)  LF="-O0 -g1 -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"; HF="-O1 -g1"; LD="";;
esac
mkdir -p "$O/lib"
ls $R/src/ta_func/*.c $R/src/ta_common/*.c $R/src/ta_abstract/ta_abstract.c $R/src/ta_abstract/ta_def_ui.c $R/src/ta_abstract/ta_group_idx.c $R/src/ta_abstract/tables/*.c $R/src/ta_abstract/frames/*.c > "$O/srcs"
python3 "$H/gen_direct.py" "$R/include/ta_func.h" "$O/direct.cpp"
for f in core exec gen extra calls globals cdlref refs gencode sched main; do echo "$H/$f.cpp"; done > "$O/hsrcs"; echo "$O/direct.cpp" >> "$O/hsrcs"
export CC CXX LF HF INC O
cat "$O/hsrcs" "$O/srcs" | xargs -P 10 -n 4 bash -c 'for s in "$@"; do b=$(basename $s); case $s in *.cpp) $CXX -std=c++17 $HF -Wall -Wno-unused-function -Wno-misleading-indentation -I/usr/include $INC -c $s -o $O/${b%.cpp}.ho || exit 255;; *) $CC $LF -w -fno-omit-frame-pointer $INC -c $s -o $O/lib/${b%.c}.o || exit 255;; esac; done' _
ld -r -o "$O/lib_raw.o" "$O"/lib/*.o
objcopy --redefine-sym malloc=sim_malloc --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc --redefine-sym free=sim_free --redefine-sym strdup=sim_strdup --redefine-sym pthread_mutex_lock=sim_mutex_lock --redefine-sym pthread_once=sim_once "$O/lib_raw.o" "$O/lib.o"
# the source generator: a program of its own inside the simulator, cut off from the real disk
mkdir -p "$O/gc"
for s in $R/src/tools/gen_code/*.c; do ${GCC:-gcc} -O1 -g1 -w -fno-omit-frame-pointer -Dmain=gen_code_main -DTA_ForEachFunc=sim_foreach -I$R/src/tools/gen_code $INC -c $s -o "$O/gc/$(basename $s .c).o"; done
ld -r -o "$O/gc_raw.o" "$O"/gc/*.o
objcopy $(for s in malloc calloc realloc free strdup fopen fopen64 freopen rename unlink remove system exit _exit popen open64 creat mkstemp truncate fork execv link symlink access; do echo --redefine-sym $s=sim_$s; done) --redefine-sym open=sim_gc_open "$O/gc_raw.o" "$O/gc.o"
$CXX $LD -rdynamic -o "$O/sim" "$O"/*.ho "$O/lib.o" "$O/gc.o" -lm -ldl
rm -rf "$O/lib" "$O/gc" "$O/lib_raw.o" "$O/gc_raw.o" "$O"/*.ho
