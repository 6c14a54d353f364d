#!/bin/bash
# run.sh NAME: builds findings/NAME.cpp against /repo's working tree and runs it (demonstration only, no check uses it)
set -e
d=$(cd "$(dirname "$0")" && pwd); V=$(dirname $d); R=${DVOLE_REPO:-/repo}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -w -O1 -g $SAN -std=c++17 -fopenmp -I$R -I$V/stubs/include -isystem /usr/include/android -isystem /usr/include/eigen3 $d/$1.cpp -o $t/a \
 -L/usr/lib/x86_64-linux-gnu/android -lcrypto -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lntl -lgmp -labsl_int128 -labsl_strings -labsl_hash -labsl_raw_hash_set -labsl_city -labsl_low_level_hash -labsl_bad_optional_access -labsl_throw_delegate -labsl_raw_logging_internal -lpthread
$t/a
