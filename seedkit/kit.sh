# sourced by demo.sh (cwd: the source tree of ASAGI): builds the library and the driver in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_orte_tmpdir_base=$W TMPDIR=$W
# build DRIVER.cpp FLAGS...
build() {
	local drv=$1; shift
	local fl="-std=c++11 -O1 -w -I$R -I$R/include -I$HERE/inc -DUSE_PTHREAD -DMAX_DIMENSIONS=4 -pthread $*"
	local s p=""
	for s in asagi.cpp asagi_f90.cpp grid/grid.cpp mpi/mpicomm.cpp mpi/commthread.cpp numa/numa.cpp perf/counter.cpp types/structtype.cpp io/netcdfreader.cpp; do
		mpicxx $fl -c $R/$s -o $W/$(echo $s | tr / _).o & p="$p $!"
	done
	mpicxx $fl -c $HERE/$drv -o $W/driver.o & p="$p $!"
	for s in $p; do wait $s || { echo "build failed"; exit 99; }; done
	mpicxx $W/*.o -lnetcdf -lnuma -pthread -o $W/t || exit 99
}
# run NP THREADS param=value...
run() { local np=$1; shift; timeout -k 5 ${LIMIT:-60} mpirun -np $np $W/t $W "$@"; }
