#!/bin/bash
# build.sh OUT [REPO]: builds the simulator and the library variants from REPO's working tree into OUT.
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/inc" "$OUT/nbc" "$OUT/std" "$OUT/ser"; : > "$OUT/inc/config.h"; : > "$OUT/inc/gslib_config.h"
cp "$HERE/mpi.h" "$HERE/cblas.h" "$OUT/inc/"
export LC_ALL=C
COMMON="-O2 -g1 -fPIC -std=gnu11 -w -U_FORTIFY_SOURCE -fno-builtin-malloc -fno-builtin-printf -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fstack-protector-strong -fsanitize=kernel-address --param asan-stack=0 --param asan-globals=0 --param asan-instrumentation-with-call-threshold=0 ${SIM_COV:+-fsanitize-coverage=trace-pc}"
SDEFS="-DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_USE_GLOBAL_LONG_LONG"
# std: naive linear algebra; nbc: nonblocking collectives, CBLAS and the application's exit handler;
# ser: no MPI, the application's mxm
DEFS="-DGSLIB_USE_MPI $SDEFS"; STDD="$DEFS -DGSLIB_USE_NAIVE_BLAS"; NBCD="$DEFS -DGSLIB_USE_USR_EXIT -DGSLIB_USE_NBC -DGSLIB_USE_CBLAS"
REDEF=""; for s in malloc calloc realloc free posix_memalign aligned_alloc strdup reallocarray strndup memcpy memmove memset exit _exit abort fwrite vfprintf vprintf printf fprintf puts fputs putchar fputc fflush time gettimeofday clock_gettime rand srand random srandom drand48 usleep nanosleep sched_yield getpid write putc dprintf; do REDEF="$REDEF --redefine-sym $s=sim_$s"; done
REDEF="$REDEF --redefine-sym __assert_fail=sim_assert_fail --redefine-sym __stack_chk_fail=sim_stack_chk_fail --redefine-sym clock=sim_clockfn --redefine-sym _Exit=sim_Exit"
UREDEF="--redefine-sym malloc=usr_malloc --redefine-sym calloc=usr_calloc --redefine-sym realloc=usr_realloc --redefine-sym free=sim_free --redefine-sym memcpy=sim_memcpy --redefine-sym memset=sim_memset --redefine-sym memmove=sim_memmove --redefine-sym __stack_chk_fail=sim_stack_chk_fail"
cat > "$OUT/Makefile.sim" <<MK
.DELETE_ON_ERROR:
all: $OUT/dst $OUT/std.so $OUT/nbc.so
serial: $OUT/ser.so
HDR := \$(wildcard $REPO/src/*.h)
SRC := \$(filter-out %/gen_poly_imp.c,\$(wildcard $REPO/src/*.c))
STD := \$(patsubst $REPO/src/%.c,$OUT/std/%.o,\$(SRC)) $OUT/std/wl.o
NBC := \$(patsubst $REPO/src/%.c,$OUT/nbc/%.o,\$(SRC)) $OUT/nbc/wl.o $OUT/nbc/blas.o
SER := \$(patsubst $REPO/src/%.c,$OUT/ser/%.o,\$(SRC)) $OUT/ser/wl.o $OUT/ser/blas.o
$OUT/ser/%.o: $REPO/src/%.c \$(HDR)
	gcc $COMMON -I$OUT/inc $SDEFS -c \$< -o \$@ && objcopy $REDEF \$@
$OUT/ser/wl.o: $HERE/wl.c \$(HDR) $HERE/mpi.h $HERE/prog.h
	gcc $COMMON -I$OUT/inc -I$REPO/src -I$HERE $SDEFS -c \$< -o \$@ && objcopy $UREDEF \$@
$OUT/ser/blas.o: $HERE/blas.c $HERE/cblas.h \$(HDR)
	gcc $COMMON -I$OUT/inc -I$REPO/src $SDEFS -c \$< -o \$@ && objcopy $REDEF \$@
$OUT/ser.so: \$(SER)
	gcc -shared -Wl,-z,now -Wl,-Bsymbolic -o \$@ \$^ -lm
$OUT/std/%.o: $REPO/src/%.c \$(HDR)
	gcc $COMMON -I$OUT/inc $STDD -c \$< -o \$@ && objcopy $REDEF \$@
$OUT/nbc/%.o: $REPO/src/%.c \$(HDR)
	gcc $COMMON -I$OUT/inc $NBCD -c \$< -o \$@ && objcopy $REDEF \$@
$OUT/std/wl.o: $HERE/wl.c \$(HDR) $HERE/mpi.h $HERE/prog.h
	gcc $COMMON -I$OUT/inc -I$REPO/src -I$HERE $STDD -c \$< -o \$@ && objcopy $UREDEF \$@
$OUT/nbc/wl.o: $HERE/wl.c \$(HDR) $HERE/mpi.h $HERE/prog.h
	gcc $COMMON -I$OUT/inc -I$REPO/src -I$HERE $NBCD -c \$< -o \$@ && objcopy $UREDEF \$@
$OUT/std.so: \$(STD)
	gcc -shared -Wl,-z,now -Wl,-Bsymbolic -o \$@ \$^ -lm
$OUT/nbc/blas.o: $HERE/blas.c $HERE/cblas.h \$(HDR)
	gcc $COMMON -I$OUT/inc -I$REPO/src $NBCD -c \$< -o \$@ && objcopy $REDEF \$@
$OUT/nbc.so: \$(NBC)
	gcc -shared -Wl,-z,now -Wl,-Bsymbolic -o \$@ \$^ -lm
$OUT/sim.o: $HERE/sim.cpp $HERE/sim.h $HERE/mpi.h
	g++ ${SIM_COV:+-DSIM_COV} -std=c++17 -O2 -g1 -w -U_FORTIFY_SOURCE -fno-strict-aliasing -I$OUT/inc -I$HERE -c \$< -o \$@
$OUT/gen.o: $HERE/gen.cpp $HERE/sim.h $HERE/prog.h $HERE/gen.h $HERE/profiles.inc
	g++ -std=c++17 -O1 -g1 -w -U_FORTIFY_SOURCE -fno-strict-aliasing -I$OUT/inc -I$HERE -c \$< -o \$@
$OUT/fpgen.o: $HERE/fpgen.cpp $HERE/sim.h $HERE/prog.h $HERE/gen.h $HERE/profiles.inc
	g++ -std=c++17 -O1 -g1 -w -U_FORTIFY_SOURCE -fno-strict-aliasing -I$OUT/inc -I$HERE -c \$< -o \$@
$OUT/main.o: $HERE/main.cpp $HERE/sim.h $HERE/prog.h $HERE/gen.h $HERE/profiles.inc
	g++ -std=c++17 -O1 -g1 -w -U_FORTIFY_SOURCE -I$OUT/inc -I$HERE -c \$< -o \$@
$OUT/dst: $OUT/sim.o $OUT/gen.o $OUT/fpgen.o $OUT/main.o
	g++ -o \$@ \$^ -ldl -lm -rdynamic
MK
make -s -j"${JOBS:-8}" -f "$OUT/Makefile.sim" all serial || { make -s -j"${JOBS:-8}" -f "$OUT/Makefile.sim" all && echo "no serial build"; }
