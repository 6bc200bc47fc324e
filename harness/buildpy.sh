#!/bin/bash
# buildpy.sh OUTDIR: compiles /repo's sources and Python bindings into OUTDIR/py/mim_solvers (with /repo's __init__.py)
set -u
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
R=${MIMV_REPO:-/repo}
V=/opt/mim-venv
S=$(ls -d $V/lib/python3*/site-packages | head -1)
P=$S/cmeel.prefix
PYI=$($V/bin/python -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
NPI=$($V/bin/python -c 'import numpy; print(numpy.get_include())')
INC="-I$R/_build -I$R/_build/include -I$R/include -I$R/bindings -idirafter $HERE/gen -isystem $P/include -isystem $P/include/eigen3 -isystem $PYI -isystem $NPI"
DEF="-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DMIM_SOLVERS_WITH_PROXQP"
OPT="-std=gnu++17 -O1 -g0 -DNDEBUG -fPIC -w"
D=$OUT/py/mim_solvers
mkdir -p $D || exit 2
pids=(); objs=()
for f in $R/bindings/*.cpp $R/bindings/utils/*.cpp $R/src/*.cpp $R/src/utils/*.cpp; do
  b=$(echo ${f#$R/} | tr '/' '_').o
  [ "$f" = $R/src/main.cpp ] && continue
  objs+=("$OUT/$b")
  g++ $OPT $DEF $INC -c $f -o $OUT/$b > $OUT/$b.log 2>&1 & pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || { cat $OUT/*.log | grep -m20 -E "error|Error"; exit 1; }
BP=$(ls $P/lib/libboost_python3*.so | head -1)
g++ -shared "${objs[@]}" -L$P/lib -Wl,--disable-new-dtags -Wl,-rpath,$P/lib -lcrocoddyl -leigenpy $BP -o $D/mim_solvers_pywrap.so > $OUT/link.log 2>&1 || { head -20 $OUT/link.log; exit 1; }
cp $R/bindings/mim_solvers/*.py $D/ || exit 1
