#!/bin/sh
# try.sh FILE [flags]: syntax check only
V="$(cd "$(dirname "$0")/.." && pwd)"; f=$1; shift
g++ -std=gnu++14 -O0 -fsyntax-only -w -include functional -DVERIF -I$V/harness -I$V/config -I${VERIF_REPO:-/repo}/include -isystem /usr/include/eigen3 "$@" $V/harness/$f 2>&1 | grep -E 'error|required from' | head -${N:-15}
