# sourced by demo.sh: builds demo.cpp against the library built from /repo and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
scr=$(mktemp -d /tmp/nlcgdemo.XXXXXX)
trap 'rm -rf "$scr"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
R=$PWD
g++ -std=c++17 -O1 -w -I"$here" -I"$R/include" -I"$R/src" -I/usr/include/trilinos -I/usr/lib/x86_64-linux-gnu/openmpi/include "$here/demo.cpp" \
  -o "$scr/demo" -L"$R/_build/src" -Wl,-rpath,"$R/_build/src" -lnlcglib -lmpi -lmpi_cxx $EXTRA || exit 9
cd "$scr"
run() { timeout 120 ./demo "$@" > out.txt 2>&1; rc=$?; tail -5 out.txt; [ $rc = 0 ] || exit 1; }
runmpi() { n=$1; shift; timeout 120 mpirun -n $n ./demo "$@" > out.txt 2>&1; rc=$?; tail -5 out.txt; [ $rc = 0 ] || exit 1; }
