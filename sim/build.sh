#!/bin/bash
# usage: build.sh REPO OUTDIR   - builds OUTDIR/simrun from REPO's working tree
set -e
REPO=$1; OUT=$2; SIM=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/repo" "$OUT/h" "$OUT/ex"
CXX="clang++"
REPOFLAGS="-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -fno-optimize-sibling-calls -fsanitize=address -fsanitize-address-use-after-return=never -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -DDEBUG=0 -DINFO=1 -w -I$REPO"
HFLAGS="-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -w -I$REPO -I$SIM"
WRAPS="__asan_memcpy __asan_memmove __asan_memset fopen fopen64 fclose fileno open open64 close read write writev lseek lseek64 fstat fstat64 stat stat64 access fsync fdatasync remove unlink rename malloc calloc realloc free strdup strndup posix_memalign aligned_alloc __cxa_allocate_exception __cxa_free_exception exit _exit quick_exit abort fread fwrite fgetc getc _IO_getc fgets getline fputc putc _IO_putc fputs feof ferror fseek fseeko ftell ungetc rewind clearerr fflush fscanf __isoc99_fscanf __isoc23_fscanf fprintf printf puts putchar time gettimeofday clock_gettime clock rand srand random srandom pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort"
W=""; for w in $WRAPS; do W="$W -Wl,--wrap=$w"; done
{
find "$REPO/pico-cnn" -name '*.cpp' | sort | while read f; do o="$OUT/repo/$(echo "${f#$REPO/}" | tr / _).o"; x=; case $f in */io/*) x=-O0;; esac; echo "$CXX $REPOFLAGS $x -c $f -o $o"; done   # -O0: stores to buffers that are never read stay visible
for f in "$SIM"/*.cpp; do o="$OUT/h/$(basename "$f").o"; echo "$CXX $HFLAGS -c $f -o $o"; done
# the example programs (C28), with a stand-in for the generated network; one that does not compile is missing in the result
for f in lenet mnist_mlp mnist_simple_perceptron alexnet vgg; do echo "$CXX -std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-address-use-after-return=never -mllvm -asan-instrument-dynamic-allocas=0 -ftrivial-auto-var-init=pattern -w -I$REPO -I$SIM/ex -Dmain=ex_$f -c $REPO/examples/$f.cpp -o $OUT/ex/$f.o || true"; done
} > "$OUT/jobs"
xargs -P 8 -I{} sh -c '{} || exit 255' < "$OUT/jobs"
for f in lenet mnist_mlp mnist_simple_perceptron alexnet vgg; do [ -f "$OUT/ex/$f.o" ] || continue   # every program keeps its own helper functions and variables
    nm -g --defined-only "$OUT/ex/$f.o" | awk -v k='ex_'$f '$2 ~ /^[TDBR]$/ && $3 !~ k {print $3}' > "$OUT/ex/$f.local"; objcopy --localize-symbols="$OUT/ex/$f.local" "$OUT/ex/$f.o"
done
link() { $CXX -fsanitize=address -static-libstdc++ -static-libgcc "$OUT"/repo/*.o "$OUT"/h/*.o "$@" $W -l:libjpeg.a -lpthread -lm -o "$OUT/simrun"; }
EX=$(ls "$OUT"/ex/*.o 2>/dev/null || true)
link $EX || link   # a program that does not link is missing too; C28 says so
