ID='b04-lost-retry'; PROPERTY='C08'
NEEDS='communication thread with cached grid: a remote block is evicted between the directory look-up and the transfer'
BREAKS='The block is only read from the file if the directory had no entry: if the transfer fails because the remote block was evicted in the meantime, the slot is used without ever being filled.'
EDITS=[('transfer/mpithreadcache.h','''		retry = true;
		return false;''','''		// The block was replaced, do not bother other ranks
		retry = false;
		return false;'''),
('grid/level/cachedist.h','''				bool received = false;
''','''				bool received;
'''),
('grid/level/cachedist.h','''					// Fill the cache
					if (m_mpiTrans.transfer(entry, globalBlockId, data, retry)) {
						this->incCounter(perf::Counter::MPI);
						received = true;
					}''','''					// Fill the cache
					received = entry >= 0;
					if (m_mpiTrans.transfer(entry, globalBlockId, data, retry))
						this->incCounter(perf::Counter::MPI);''')]
DEMO='''
build driver.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN
for i in 1 2 3; do K=4000 run 4 1 grid=cache mpi_communication=thread cache_size=2 block_size_0=2 block_size_1=2 || exit 1; done
'''
