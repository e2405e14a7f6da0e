ID='b07-round-clamp'; PROPERTY='C04'
NEEDS='a grid with different sizes of its dimensions and a coordinate beyond the last cell'
BREAKS='A coordinate beyond the end is clamped to the size of the mirrored dimension: a value of another cell, or outside of the data, is returned.'
EDITS=[('grid/level/level.h','''					x = m_size[i]-1;''','''					x = m_size[m_dims-i-1]-1;''')]
FILES={'drv7.cpp':r'''
#include <asagi.h>
#include <netcdf.h>
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
using namespace asagi;
#define CK(x) do{int e_=(x); if(e_){printf("err %d line %d\n",e_,__LINE__);exit(3);} }while(0)
int main(int c, char** v) {
	MPI_Init(&c, &v); char f[500]; snprintf(f, 500, "%s/a.nc", v[1]); int id, d[2], vid;
	CK(nc_create(f, NC_CLOBBER, &id)); CK(nc_def_dim(id, "y", 5, &d[0])); CK(nc_def_dim(id, "x", 4, &d[1]));
	CK(nc_def_var(id, "z", NC_FLOAT, 2, d, &vid)); CK(nc_enddef(id)); float a[20]; for (int i = 0; i < 20; i++) a[i] = i;
	CK(nc_put_var_float(id, vid, a)); CK(nc_close(id));
	Grid* g = Grid::create(); g->setParam("BLOCK_SIZE_0", "2"); g->setParam("BLOCK_SIZE_1", "2"); CK(g->open(f)); int bad = 0;
	for (int y = 0; y < 5; y++) for (double x = 3.5; x < 6; x += 0.25) { double p[2] = {x, (double) y}; float w = g->getFloat(p); if (w != y*4+3) { printf("%g %d: %g\n", x, y, w); bad = 1; } }
	delete g; MPI_Finalize(); return bad; }
'''}
DRIVER='drv7.cpp'
DEMO='''
build drv7.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN
timeout 60 mpirun -np 1 $W/t $W
'''
