#!/bin/bash
# run with cwd /repo after the build; exit 0 if the property holds on this demonstration's case
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
O=$(ls "$R"/src/*.o | grep -v -e '/gandalf\.o' -e _wrap -e '/Test')
g++ -O1 -w -fno-access-control -DGANDALF_DOUBLE_PRECISION -DGANDALF_GSL -DDEBUG1 -I"$R"/src/Headers "$D"/driver.cpp $O -lgsl -lgslcblas -lm -o "$W"/drv || exit 2
cd "$W" && OMP_NUM_THREADS=1 timeout 250 /usr/bin/python3 -B "$D"/demo.py "$W"/drv
