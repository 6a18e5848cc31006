#!/bin/bash
# compile and run one harness by hand: hc.sh file.cpp [-Dflags] -- [sx options]
src=$1; shift; fl=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do fl+=("$1"); shift; done; shift
h=$(echo "$src ${fl[*]}" | md5sum | cut -c1-8)
mkdir -p /verif/build/hand
clang++-18 -w -std=c++20 -O1 -Xclang -disable-llvm-passes -g1 -emit-llvm -c -fno-threadsafe-statics -ffp-contract=off -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_CPUID -DEIGEN_STACK_ALLOCATION_LIMIT=0 -DSHOW_STACKTRACE=0 -I/verif/harness -I/verif/stubs -I${REPO:-/repo}/include -I/usr/include/eigen3 "${fl[@]}" $src -o /verif/build/hand/$h.bc || exit 3
time /verif/build/sx "$@" /verif/build/hand/$h.bc /verif/build/libsx.bc -o /verif/build/hand/$h.json; rc=$?
python3 - /verif/build/hand/$h.json <<'P'
import json,sys
j=json.load(open(sys.argv[1]))
for v in j['violations']: print('VIOL',v['kind'],v['msg'],v['stack'][:3] if isinstance(v['stack'],list) else v['stack'][:400], v['values'])
print({k:j.get(k) for k in 'paths killed forks checks checks_concrete checks_same_term obligations confirmed confirm_unknown checks_by_solver checks_within_1e-9 inconclusive unknown_branches queries sat unsat unknown solver_s errors limit pending'.split()})
print(j['covers'])
P
exit $rc
