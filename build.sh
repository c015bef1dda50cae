here=/tmp/w/nt; t=/tmp/w/nt/o; mkdir -p $t; cd ${1:-/repo}
cc() { o="$t/$(echo "$1" | tr / _).o"; g++-14 -std=c++23 -O0 -fno-access-control -I. -I"$here/shim" -c "$1" -o $o || echo FAIL $1; }
export -f cc; export here t
{ ls gcs/*.cc gcs/innards/*.cc gcs/innards/proofs/*.cc gcs/presolvers/auto_table/*.cc gcs/constraints/table/*.cc gcs/constraints/extensional_utils.cc gcs/constraints/innards/*.cc gcs/constraints/nogoods/*.cc; echo $here/demo.cc; } | grep -v _test | sort -u | xargs -P8 -I{} bash -c 'cc {}'
g++-14 -Wl,--unresolved-symbols=ignore-all $t/*.o -o $here/demo -lstdc++exp
