#!/bin/bash
# builds demo.cc, which lies beside this file, against the build in the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; s=$PWD/src
g++ -O1 -include map -std=c++11 -w -DKENLM_MAX_ORDER=6 -DHAVE_ICU -pthread -I$s/include -I$s/kenlm -I$s -I$s/marisa -I$s/tercpp "$d/demo.cc" -o "$t/demo" \
  $s/lib/.libs/libtravatar.a $s/kenlm/lm/.libs/libklm.a $s/kenlm/util/.libs/libklm_util.a $s/kenlm/search/.libs/libklm_search.a $s/tercpp/.libs/libter.a $s/marisa/.libs/libmarisa.a $s/liblbfgs/.libs/liblbfgs.a \
  -lboost_thread -lboost_regex -lboost_iostreams -lboost_system -lboost_locale -lrt -lz -licui18n -licuuc -licudata || exit 0
cd "$t" && timeout 100 ./demo
