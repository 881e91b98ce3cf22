#!/bin/bash
# incremental developer build: build.sh [outdir] [repo]
out=${1:-/tmp/mcb}; repo=${2:-/repo}; mkdir -p $out; cd /verif/mc
R="-std=c++17 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -I$repo/src"   # code under test
H="-std=c++17 -g1 -DMC_ASAN -I$repo/src -Wall"                                               # harness
opt() { case $1 in core.cpp|env.cpp|mime.cpp|client.cpp|checks_pure.cpp|checks_value.cpp) echo -O1;; *) echo -O0;; esac; }
{ for f in *.cpp; do echo $f $out/h_${f%.cpp}.o $H $(opt $f); done; for f in $repo/src/*.cpp; do echo $f $out/r_$(basename $f .cpp).o $R; done; for f in $repo/src/cpp/*.cpp; do echo $f $out/p_$(basename $f .cpp).o $R; done; } > $out/list
rm -f $out/fail
while read s o f; do if [ ! -e $o ] || [ $s -nt $o ] || { [[ $s != /* ]] && [ -n "$(find /verif/mc -name '*.h' -newer $o)" ]; } || [ -n "$(find $repo/src -name '*.h*' -newer $o)" ]; then echo "$s $o $f"; fi; done < $out/list | xargs -P8 -L1 bash -c 's=$0; o=$1; shift; clang++ "$@" -c $s -o $o || { touch '$out'/fail; rm -f $o; }'
[ -e $out/fail ] && exit 1
WR=""; for w in pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do WR="$WR -Wl,--wrap=$w"; done
clang++ -fsanitize=address,undefined $WR $out/*.o -o $out/mc -lssl -lcrypto -lpthread
