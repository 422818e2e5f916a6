#!/bin/bash
# builds demo.c against the library built in /repo and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); CFGS="@CFGS@"; W=$(mktemp -d) || exit 1
trap 'cd /; rm -rf "$W"' EXIT
for c in $CFGS; do
  L="-lfftw3 -lm"; [ $c = nc4 ] && L="-lm"; [ $c = nc4gsl ] && L="-lgsl -lgslcblas -lm"
  gcc -w -O1 -msse2 -fopenmp -DHAVE_CONFIG_H -I/repo/_build/$c -I/repo/src/Headers -I"$D" -o "$W/demo" "$D/demo.c" /repo/_build/$c/src/libGLU.a $L || exit 1
  (cd "$W" && timeout 120 ./demo >"$W/out") || { echo "demo failed in $c"; exit 1; }
done
exit 0
