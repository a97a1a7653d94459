#!/bin/bash
# builds demo.cpp against the repository's freshly built library and runs it; exit 0 = property holds
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=$B/src/lib/.libs/libqdng.a
g++ -std=gnu++17 -g -O1 -w -fopenmp -DHAVE_CONFIG_H -I$B/src -I$B/src/qdlib -I$R/src -I/usr/include/libxml2 "$D/demo.cpp" -o $T/demo \
  $L $L -lfftw3_omp -lfftw3 -llapack -lblas -lxml2 -lbz2 -lz -lprotobuf -lgfortran -ldl -lm || { echo "demo does not build"; exit 2; }
cd $T && timeout 120 ./demo
