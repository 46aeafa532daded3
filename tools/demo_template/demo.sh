#!/bin/bash
# compiles demo.c with the objects of the build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=/repo/_build/main/sgrid
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp $t/lib/obj/main/main.o $w/main.o && objcopy --redefine-sym main=sgrid_real_main $w/main.o || exit 2
gcc -O1 -w -fopenmp -I$t/src/main/main -c "$here/demo.c" -o $w/demo.o || exit 2
objs=$(ls $t/lib/obj/*/*.o | grep -v '/obj/main/main\.o$')
g++ -fopenmp -o $w/demo $w/demo.o $w/main.o $objs -lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm -ldl || exit 2
cd $w && OMP_NUM_THREADS=1 timeout 60 ./demo > $w/out 2>&1
rc=$?
tail -3 $w/out
exit $rc
