#!/bin/bash
# build.sh OUTDIR [asan]: compiles /repo's sources and the harness (in parallel) into OUTDIR/harness
set -u
OUT=$1; MODE=${2:-plain}
HERE=$(cd "$(dirname "$0")" && pwd)
R=${MIMV_REPO:-/repo}
P=/opt/mim-venv/lib/python3.12/site-packages/cmeel.prefix
INC="-I$R/_build -I$R/_build/include -I$R/include -idirafter $HERE/gen -isystem $P/include -isystem $P/include/eigen3"
DEF="-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DMIM_SOLVERS_WITH_PROXQP -D_GLIBCXX_ASSERTIONS"
OPT="-std=gnu++17 -O1 -g0 -DNDEBUG -include $HERE/asserts.hpp -fno-access-control -w"
if [ "$MODE" = asan ]; then OPT="$OPT -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr -fno-omit-frame-pointer"; fi
mkdir -p "$OUT" || exit 2
pids=()
objs=()
for f in $R/src/*.cpp $R/src/utils/*.cpp; do
  b=$(basename $f .cpp); [ "$b" = main ] && continue
  objs+=("$OUT/$b.o")
  g++ $OPT $DEF $INC -c $f -o $OUT/$b.o > $OUT/$b.log 2>&1 & pids+=($!)
done
g++ $OPT $DEF $INC -I$HERE -c $HERE/harness.cpp -o $OUT/h.o > $OUT/h.log 2>&1 & pids+=($!)
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || { cat $OUT/*.log | grep -m20 -E "error|Error"; exit 1; }
g++ $OPT $OUT/h.o "${objs[@]}" -L$P/lib -Wl,--disable-new-dtags -Wl,-rpath,$P/lib -lcrocoddyl $(ls $P/lib/libpinocchio_default.so >/dev/null 2>&1 && echo -lpinocchio_default) -o $OUT/harness > $OUT/link.log 2>&1 || { cat $OUT/link.log | head -20; exit 1; }
