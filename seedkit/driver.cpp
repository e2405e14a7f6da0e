// opens a generated grid with the given threads and parameters and compares every value
// usage: driver DIR THREADS param=value...; DIMS=13x11 (file order), K=number of random queries per thread
#include <mpi.h>
#include <asagi.h>
#include <netcdf.h>
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace asagi;
#define CK(x) do{int e_=(x); if(e_){printf("err %d line %d\n",e_,__LINE__);exit(3);} }while(0)
int main(int c, char** v) {
	int prov; MPI_Init_thread(&c, &v, MPI_THREAD_MULTIPLE, &prov);
	int r, s; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &s);
	const char* dir = v[1]; int T = atoi(v[2]); int K = getenv("K") ? atoi(getenv("K")) : 1000;
	std::vector<size_t> n; { char b[100]; strcpy(b, getenv("DIMS") ? getenv("DIMS") : "13x11"); for (char* p = strtok(b, "x"); p; p = strtok(0, "x")) n.push_back(atoi(p)); }
	int D = n.size(); size_t N = 1; for (int i = 0; i < D; i++) N *= n[i];
	char f[500]; snprintf(f, 500, "%s/a.nc", dir);
	if (r == 0) { // dimension i of a position is the i-th last dimension of the file
		int id, d[8], vid; CK(nc_create(f, NC_CLOBBER, &id));
		for (int i = 0; i < D; i++) { char nm[9]; snprintf(nm, 9, "d%d", i); CK(nc_def_dim(id, nm, n[D-1-i], &d[i])); }
		CK(nc_def_var(id, "z", NC_FLOAT, D, d, &vid)); CK(nc_enddef(id));
		std::vector<float> a(N); for (size_t i = 0; i < N; i++) a[i] = i; CK(nc_put_var_float(id, vid, &a[0])); CK(nc_close(id));
	}
	MPI_Barrier(MPI_COMM_WORLD);
	int ct = 0; for (int i = 3; i < c; i++) if (!strcmp(v[i], "mpi_communication=thread")) ct = 1;
	if (ct) CK(Grid::startCommThread(100000));
	Grid* g = Grid::create(Grid::FLOAT); CK(g->setComm(MPI_COMM_WORLD)); CK(g->setThreads(T));
	for (int i = 3; i < c; i++) { char* e = strchr(v[i], '='); *e = 0; g->setParam(v[i], e+1); }
	std::vector<std::thread> th; int bad = 0;
	for (int t = 0; t < T; t++) th.emplace_back([&, t] {
		int e = g->open(f); if (e) { printf("rank %d thread %d: open error %d\n", r, t, e); bad = 1; return; }
		unsigned sd = r*100+t;
		for (int k = 0; k < K; k++) {
			double p[8]; size_t want = 0;
			for (int i = D-1; i >= 0; i--) { size_t x = rand_r(&sd) % n[i]; p[i] = x; want = want*n[i] + x; }
			float w = g->getFloat(p);
			if (w != (float) want) { if (!bad) printf("rank %d thread %d: expected %zu, got %f\n", r, t, want, w); bad = 1; }
		}
	});
	for (auto& t : th) t.join();
	MPI_Barrier(MPI_COMM_WORLD);
	if (r == 0) printf("accesses %lu file %lu mpi %lu numa %lu\n", g->getCounter("accesses"), g->getCounter("file_loads"), g->getCounter("mpi_transfers"), g->getCounter("numa_transfers"));
	if (g->getCounter("accesses") != (unsigned long) T*K) { printf("rank %d: %d accesses, %lu counted\n", r, T*K, g->getCounter("accesses")); bad = 1; }
	delete g; if (ct) Grid::stopCommThread();
	int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
	if (r == 0) printf(all ? "BAD\n" : "OK\n");
	MPI_Finalize(); return all;
}
