#!/bin/bash
# builds and runs the self test of harness/rt.cpp; prints one line per construct, fails when one is judged wrongly
set -e
V=$(cd "$(dirname "$0")/.." && pwd); H=$V/harness; D=$(mktemp -d /tmp/evr_rtt.XXXX); trap 'rm -r "$D"' EXIT
g++ -std=gnu++17 -O2 -w -I$H -c $H/rt.cpp -o $D/rt.o
g++ -std=gnu++17 -g0 -w -O1 -fsanitize=thread -fopenmp -fno-builtin -DMC_TLS=thread_local -DMC_RT -I$H -include omp.h -c $V/selftest/rttest.cpp -o $D/t.o
g++ -rdynamic $D/t.o $D/rt.o -o $D/t -ldl $(cd $V && python3 -c "import run;print(' '.join('-Wl,--wrap='+w for w in run.WRAP))")
$D/t --run all $D/out.json 2>&1 | tee $D/log; ! grep -q ^BAD $D/log
