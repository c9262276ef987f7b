#!/bin/bash
# run.sh PROPERTY [flags]: builds the engine from the committed sources if
# necessary and runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOTOOLCHAIN=local
bin=bin/gosym
build() {
    mkdir -p bin
    (cd engine && GOFLAGS=-mod=mod go1.26 build -o "../bin/gosym.$$" .) && mv "bin/gosym.$$" $bin
}
if [ ! -x $bin ] || [ -n "$(find engine -newer $bin -name '*.go' -print -quit)" ]; then
    build || { echo "ERROR engine build"; exit 2; }
fi
[ "$1" = setup ] && exit 0
prop=$1
shift
exec $bin -prop "$prop" -verif "$PWD" "$@"
