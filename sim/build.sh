#!/bin/bash
# Builds the simulators against the current tree: build.sh OUTDIR [targets...]
# The code under test is compiled with -fsanitize=thread instrumentation and linked with the
# runtime in rt.cc, which makes each of its memory accesses one simulated step.
set -e
OUT=$1; shift
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
CLINGO=/opt/clingo-venv/lib/python3.12/site-packages/clingo
mkdir -p "$OUT"
cat > "$OUT/Makefile" <<EOM
CXX=g++
INC=-I$CLINGO -I$REPO/libclingo-lpx -I$REPO/libclingo-lpx/src -I$REPO/app/lib -I$OUT
DEF=-DCLINGOLPX_USE_FLINT
LPXFLAGS=-std=c++17 -O1 -g1 -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -fsanitize=thread --param tsan-distinguish-volatile=0 -w \$(DEF) \$(INC)
SIMFLAGS=-std=c++17 -O1 -g1 -Wall -Wextra -Wno-unused-parameter \$(INC) -I$HERE
WRAPNEW=-Wl,--wrap=_Znwm -Wl,--wrap=_Znam -Wl,--wrap=_ZnwmRKSt9nothrow_t -Wl,--wrap=_ZdlPv -Wl,--wrap=_ZdlPvm -Wl,--wrap=_ZdaPv
LPXSRC=\$(wildcard $REPO/libclingo-lpx/src/*.cc)
LPXHDR=\$(wildcard $REPO/libclingo-lpx/src/*.hh $REPO/libclingo-lpx/*.h* $REPO/app/lib/*/*.hh $REPO/app/lib/src/*.hh $REPO/app/src/*.hh)
LPXOBJ=\$(patsubst $REPO/libclingo-lpx/src/%.cc,$OUT/lpx_%.o,\$(LPXSRC))
APPOBJ=\$(patsubst $REPO/app/lib/src/%.cc,$OUT/applib_%.o,\$(wildcard $REPO/app/lib/src/*.cc)) \$(patsubst $REPO/app/src/%.cc,$OUT/app_%.o,\$(wildcard $REPO/app/src/*.cc))
CLINGOLIB=\$(wildcard $CLINGO/_clingo*.so)
LIBS=\$(CLINGOLIB) -lpython3.12 -lflint -lgmpxx -lgmp -lpthread -ldl -Wl,-rpath,$CLINGO
all: \$(TARGETS)
$OUT/lpx_%.o: $REPO/libclingo-lpx/src/%.cc \$(LPXHDR) ; \$(CXX) \$(LPXFLAGS) -c \$< -o \$@
$OUT/applib_%.o: $REPO/app/lib/src/%.cc \$(LPXHDR) ; \$(CXX) \$(LPXFLAGS) -c \$< -o \$@
$OUT/app_%.o: $REPO/app/src/%.cc \$(LPXHDR) ; \$(CXX) \$(LPXFLAGS) -Dmain=lpx_app_main -c \$< -o \$@
$OUT/%.o: $HERE/%.cc \$(wildcard $HERE/*.hh) ; \$(CXX) \$(SIMFLAGS) -c \$< -o \$@
$OUT/simb: $HERE/wrapb.txt $OUT/real.o $OUT/sched.o $OUT/runner.o $OUT/rt.o \$(LPXOBJ) \$(APPOBJ) ; \$(CXX) -o \$@ \$(filter %.o,\$^) \$(WRAPNEW) @$HERE/wrapb.txt \$(LIBS)
$OUT/sima: $OUT/host.o $OUT/runner.o $OUT/rt.o \$(LPXOBJ) ; \$(CXX) -o \$@ \$^ \$(WRAPNEW) @$HERE/wrapa.txt \$(LIBS)
EOM
T=""
for t in "$@"; do T="$T $OUT/$t"; done
make -s -f "$OUT/Makefile" -j8 TARGETS="$T" all
