ID='b02-timedim'; PROPERTY='C06'
NEEDS='a block size given by the user for one of several dimensions of different size'
BREAKS='The block size given by the user is taken from the mirrored dimension.'
EDITS=[('grid/level/blocked.h','				m_blockSize[i] = blockSize[this->dimensions() - i - 1];','				m_blockSize[i] = blockSize[i];')]
FILES={'drv2.cpp':r'''
#include <asagi.h>
#include <netcdf.h>
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
using namespace asagi;
#define CK(x) do{int e_=(x); if(e_){printf("err %d line %d\n",e_,__LINE__);exit(3);} }while(0)
int main(int c, char** v) { // 3D grid, block size 5 in dimension 0, default otherwise: 100 x 100 x 2
	MPI_Init(&c, &v); char f[500]; snprintf(f, 500, "%s/a.nc", v[1]); int id, d[3], vid; size_t n[3] = {2, 100, 100};
	CK(nc_create(f, NC_CLOBBER, &id)); const char* nm[] = {"t", "y", "x"}; for (int i = 0; i < 3; i++) CK(nc_def_dim(id, nm[i], n[i], &d[i]));
	CK(nc_def_var(id, "z", NC_FLOAT, 3, d, &vid)); CK(nc_enddef(id)); float* a = new float[20000]; for (int i = 0; i < 20000; i++) a[i] = i;
	CK(nc_put_var_float(id, vid, a)); CK(nc_close(id));
	Grid* g = Grid::create(); g->setParam("GRID", "CACHE"); g->setParam("BLOCK_SIZE_0", "5"); g->setParam("CACHE_SIZE", "100");
	CK(g->open(f)); int bad = 0;
	for (int t = 0; t < 2; t++) for (int y = 0; y < 100; y++) for (int x = 0; x < 100; x++) {
		double p[3] = {(double) x, (double) y, (double) t}; if (g->getFloat(p) != (t*100+y)*100+x) bad = 1; }
	unsigned long blocks = g->getCounter("file_loads"); // 100/5 in x, ceil(100/64) in y, 1 in t
	printf("blocks %lu\n", blocks); if (blocks != 20 * 2) bad = 1;
	delete g; MPI_Finalize(); return bad; }
'''}
DRIVER='drv2.cpp'
DEMO='''
build drv2.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN
timeout 60 mpirun -np 1 $W/t $W
'''
