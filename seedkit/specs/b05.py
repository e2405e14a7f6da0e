ID='b05-init-error'; PROPERTY='C02'
NEEDS='a cached grid with MPI communication by thread on more than one rank while the communication thread has not been started'
BREAKS='The error of the MPI transfer initialisation is overwritten by the result of the NUMA transfer initialisation: open reports success.'
EDITS=[('grid/level/cachedist.h','''				this->type(), this->comm(), this->numa());
		if (err != asagi::Grid::SUCCESS)
			return err;

		// Initialize the NUMA''','''				this->type(), this->comm(), this->numa());

		// Initialize the NUMA''')]
FILES={'drv5.cpp':r'''
#include <asagi.h>
#include <netcdf.h>
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
using namespace asagi;
#define CK(x) do{int e_=(x); if(e_){printf("err %d line %d\n",e_,__LINE__);exit(3);} }while(0)
int main(int c, char** v) {
	int prov, r; MPI_Init_thread(&c, &v, MPI_THREAD_MULTIPLE, &prov); MPI_Comm_rank(MPI_COMM_WORLD, &r); char f[500]; snprintf(f, 500, "%s/a.nc", v[1]);
	if (r == 0) { int id, d, vid; CK(nc_create(f, NC_CLOBBER, &id)); CK(nc_def_dim(id, "x", 10, &d)); CK(nc_def_var(id, "z", NC_FLOAT, 1, &d, &vid)); CK(nc_enddef(id));
		float a[10] = {0}; CK(nc_put_var_float(id, vid, a)); CK(nc_close(id)); }
	MPI_Barrier(MPI_COMM_WORLD);
	Grid* g = Grid::create(); g->setComm(MPI_COMM_WORLD); g->setParam("GRID", "CACHE"); g->setParam("MPI_COMMUNICATION", "THREAD");
	int e = g->open(f); printf("rank %d: open returned %d\n", r, e); int bad = e == 0;
	delete g; MPI_Finalize(); return bad; }
'''}
DRIVER='drv5.cpp'
DEMO='''
build drv5.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN
timeout 60 mpirun -np 2 $W/t $W
'''
