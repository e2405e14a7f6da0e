ID='b06-wrong-dict'; PROPERTY='C09'
NEEDS='a cached grid with MPI windows, more than one NUMA domain and replacements: the directory entry of a block at home in another domain is updated'
BREAKS='The old block is removed from the directory at the slot within the domain instead of the slot within the node: stale entries of blocks at home in another domain remain, and an unrelated entry may be deleted.'
EDITS=[('grid/level/cachedist.h','''					this->blockRank(oldGlobalBlockId),
					this->blockNodeOffset(oldGlobalBlockId),''','''					this->blockRank(oldGlobalBlockId),
					this->blockOffset(oldGlobalBlockId),''')]
DEMO='''
build driver.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN -DTHREADSAFE_MPI -DDEBUG_NUMA=1
for i in 1 2 3; do K=1000 run 2 3 grid=cache mpi_communication=window cache_size=2 block_size_0=2 block_size_1=2 || exit 1; done
'''
