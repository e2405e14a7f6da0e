ID='b03-early-unlock'; PROPERTY='C07'
NEEDS='several threads of one NUMA domain that query different blocks while the cache is small, so that a slot is replaced between the unlock and the conversion'
BREAKS='The slot is released before the value is copied out of it: another thread may replace the block in between.'
EDITS=[('grid/level/cache.h','''		// Finally, we fill the buffer
		this->type().convert(&data[this->typeSize() * offset], buf);

		// Free the block in the cache
		m_cacheManager.unlock(cacheOffset);''','''		// The block has been found: free the block in the cache
		m_cacheManager.unlock(cacheOffset);

		// Finally, we fill the buffer
		this->type().convert(&data[this->typeSize() * offset], buf);''')]
DEMO='''
build driver.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN
for i in 1 2 3 4 5 6 7 8; do K=60000 DIMS=40x40 run 1 8 grid=cache cache_size=1 block_size_0=1 block_size_1=1 || exit 1; done
'''
