From fe8073ad4b969704a291b9699a91de2c4a46cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 01/39] fix: keep the block size of 1 in the time dimension

---
 grid/level/blocked.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grid/level/blocked.h b/grid/level/blocked.h
index b8ff243..b3318f1 100644
--- a/grid/level/blocked.h
+++ b/grid/level/blocked.h
@@ -114,10 +114,11 @@ protected:
 		m_totalBlocks = 1;
 		m_totalBlockSize = 1;
 		for (unsigned int i = 0; i < this->dimensions(); i++) {
-			if (blockSize[this->dimensions() - i - 1] == 0)
+			if (blockSize[this->dimensions() - i - 1] == 0) {
 				// Setting default block size, if not yet set
-				m_blockSize[i] = 64;
-			else if (blockSize[this->dimensions() - i - 1] < 0)
+				if (static_cast<int>(this->dimensions() - i - 1) != timeDimension)
+					m_blockSize[i] = 64;
+			} else if (blockSize[this->dimensions() - i - 1] < 0)
 				// Set block size to maximum
 				m_blockSize[i] = this->size(i);
 			else
-- 
2.43.0


From d3eb32e3754b525a9607d41183e102e89a3f4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 02/39] fix: do not convert NaN to an index

---
 grid/level/level.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grid/level/level.h b/grid/level/level.h
index f0e8654..9250297 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -358,9 +358,11 @@ protected:
 		for (int i = m_dims-1; i >= 0; i--) {
 			double x = round((pos[m_dims-i-1] - m_offset[i]) * m_scalingInv[i]);
 
-			if (x < 0 || x >= m_size[i]) {
+			// Written such that NaN (e.g. infinity in a dimension without
+			// scaling) is handled as well
+			if (!(x >= 0) || x >= m_size[i]) {
 				logWarning() << "ASAGI: Coordinate in dimension" << (m_dims-i-1) << " is out of range. Fixing.";
-				if (x < 0)
+				if (!(x >= 0))
 					x = 0;
 				else
 					x = m_size[i]-1;
-- 
2.43.0


From 6138fe6af92bf66ba471c167aa46ef08fd431ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 03/39] fix: report the counter of the requested level

---
 grid/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 49c82be..87ed8d8 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -257,7 +257,7 @@ unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
 	// Aggregate over all NUMA domains
 	for (std::vector<Container*>::const_iterator it = m_containers.begin();
 			it != m_containers.end(); it++)
-		counter += (*it)->getCounter(type);
+		counter += (*it)->getCounter(type, level);
 
 	return counter;
 }
-- 
2.43.0


From 5a87207ab52b374f23aea8ce340e4300f904e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 04/39] fix: document the file_loads counter under its real
 name

---
 documentation/user/02_usage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/documentation/user/02_usage.h b/documentation/user/02_usage.h
index 88826e2..156292d 100644
--- a/documentation/user/02_usage.h
+++ b/documentation/user/02_usage.h
@@ -297,7 +297,7 @@
  *   <td>Number of blocks transfered between processes</td>
  *  </tr>
  *  <tr>
- *   <td>file_load</td>
+ *   <td>file_loads</td>
  *   <td>Number of blocks loaded from file (after initialization)</td>
  *  </tr>
  *  <tr>
-- 
2.43.0


From 591a1eaa88885b3981057f7b346b639c1d0a4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 05/39] fix: report the errors of all domain masters in open

---
 grid/grid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 87ed8d8..61ca5ae 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -241,11 +241,16 @@ asagi::Grid::Error grid::Grid::open(const char* filename, unsigned int level)
 	}
 
 	// Synchronize the return value (also acts as a barrier)
-	asagi::Grid::Error err2 = m_numa.broadcast(err);
+	asagi::Grid::Error globalErr = err;
+	asagi::Grid::Error err2 = m_numa.broadcast(globalErr);
 	if (err2 != asagi::Grid::SUCCESS)
 		return err2;
 
-	return err;
+	// Do not lose errors of the domain masters
+	if (err != asagi::Grid::SUCCESS)
+		return err;
+
+	return globalErr;
 }
 
 unsigned long grid::Grid::getCounter(const char* name, unsigned int level)
-- 
2.43.0


From 195d782366813dcc1e54517458ea0f1fcc4c3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 06/39] fix: report initialisation errors of one NUMA domain to
 all domains

A domain that failed to open or initialise returned before the collective
operations of the other domains, which then waited forever. Errors of the
directory set-up were lost. The directory and the loaded blocks of all
domains are now complete before other processes can access them.
---
 grid/level/cache.h        |  3 ++
 grid/level/full.h         |  3 ++
 grid/level/fulldist.h     |  4 ++
 mpi/mutex.h               |  2 +-
 numa/numacomm.h           | 39 +++++++++++++---
 transfer/mpicache.h       | 12 +++--
 transfer/mpithreadcache.h | 57 +++++++++++++++---------
 transfer/mpithreadfull.h  | 14 +++---
 transfer/mpiwincache.h    | 93 +++++++++++++++++++++++++--------------
 transfer/mpiwinfull.h     |  9 +++-
 10 files changed, 164 insertions(+), 72 deletions(-)

diff --git a/grid/level/cache.h b/grid/level/cache.h
index 52712dc..09da7a9 100644
--- a/grid/level/cache.h
+++ b/grid/level/cache.h
@@ -95,6 +95,9 @@ public:
 	{
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
+
+		// Stop all domains if one of them failed
+		err = this->numa().agree(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/full.h b/grid/level/full.h
index a2f794d..6ce3d28 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -94,6 +94,9 @@ public:
 	{
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
+
+		// Stop all domains if one of them failed
+		err = this->numa().agree(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/grid/level/fulldist.h b/grid/level/fulldist.h
index 7536f77..fe21832 100644
--- a/grid/level/fulldist.h
+++ b/grid/level/fulldist.h
@@ -117,6 +117,10 @@ public:
 		err = Allocator::allocate(
 				this->typeSize() * this->totalBlockSize() * cacheSize,
 				m_cache);
+
+		// All domains have to load their blocks before other processes
+		// can access them
+		err = this->numa().agree(err);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/mpi/mutex.h b/mpi/mutex.h
index 3d7ec4e..016a541 100644
--- a/mpi/mutex.h
+++ b/mpi/mutex.h
@@ -110,7 +110,7 @@ public:
 	 *
 	 * @param lock Reference to the mutex memory location
 	 */
-	void initMutexMem(long& lock)
+	static void initMutexMem(long& lock)
 	{
 		lock = MUTEX_UNLOCKED;
 	}
diff --git a/numa/numacomm.h b/numa/numacomm.h
index 4f67bb8..589ea12 100644
--- a/numa/numacomm.h
+++ b/numa/numacomm.h
@@ -121,6 +121,31 @@ public:
 		return asagi::Grid::SUCCESS;
 	}
 
+	/**
+	 * Combines the error codes of all NUMA domains. This is a collective
+	 * operation among the NUMA masters and also acts as a barrier.
+	 *
+	 * @param err The local error code
+	 * @return SUCCESS if no domain failed, otherwise the error code of the
+	 *  first domain that failed
+	 */
+	asagi::Grid::Error agree(asagi::Grid::Error err)
+	{
+		asagi::Grid::Error globalErr = asagi::Grid::SUCCESS;
+
+		for (unsigned int i = 0; i < totalDomains(); i++) {
+			asagi::Grid::Error domainErr = err;
+			asagi::Grid::Error err2 = broadcast(domainErr, i);
+			if (err2 != asagi::Grid::SUCCESS)
+				return err2;
+
+			if (globalErr == asagi::Grid::SUCCESS)
+				globalErr = domainErr;
+		}
+
+		return globalErr;
+	}
+
 	/**
 	 * Allocates memory for all NUMA domains. This is a collective
 	 * operation among the NUMA masters.
@@ -131,15 +156,17 @@ public:
 	template<class Allocator, typename T>
 	asagi::Grid::Error allocate(unsigned long size, T* &data)
 	{
-		if (domainId() == 0) {
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
+		if (domainId() == 0)
 			// Allocate the memory with the master thread
-			asagi::Grid::Error err = Allocator::allocate(size * totalDomains(), data);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-		}
+			err = Allocator::allocate(size * totalDomains(), data);
+
+		err = agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
 
 		// Broadcast the pointer to all domains
-		asagi::Grid::Error err = broadcast(data);
+		err = broadcast(data);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index c715807..dccbc01 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -101,13 +101,18 @@ protected:
 		m_rankCacheSize = cacheSize * numaComm.totalDomains();
 
 		// Allocate the memory and broadcast the pointer
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			Allocator::allocate(
+			err = Allocator::allocate(
 					blockCount * totalDictEntrySize() * numaComm.totalDomains(),
 					m_dictionary);
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_dictionary);
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_dictionary);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
@@ -116,7 +121,8 @@ protected:
 				i < blockCount * totalDictEntrySize() * (m_numaDomainId+1); i++)
 			m_dictionary[i] = -1;
 
-		return asagi::Grid::SUCCESS;
+		// Wait for all domains before the dictionary is used
+		return numaComm.agree(asagi::Grid::SUCCESS);
 	}
 
 	/**
diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 9439405..219dbbf 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -363,9 +363,14 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
-		MPICache<allocator::Default, false>::init(cacheSize,
+		asagi::Grid::Error err = MPICache<allocator::Default, false>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
 
+		// The whole dictionary has to be initialized before we answer requests
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		if (m_numaDomainId == 0) {
 			m_cacheManager = new cache::CacheManager*[m_numaDomainSize];
 
@@ -378,25 +383,7 @@ public:
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
 			// Initialize the receivers
-			asagi::Grid::Error err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
-
-			err = mpi::CommThread::commThread
-				.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
+			err = registerReceivers(mpiComm);
 
 			m_tagOffset = mpiComm.reserveTags(3);
 
@@ -404,7 +391,11 @@ public:
 			m_blockMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_cacheManager);
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_cacheManager);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
@@ -603,6 +594,30 @@ public:
 	}
 
 private:
+	/**
+	 * Registers all receivers at the communication thread
+	 */
+	asagi::Grid::Error registerReceivers(const mpi::MPIComm &mpiComm)
+	{
+		asagi::Grid::Error err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockInfoResponder, m_blockInfoTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_blockTransferer, m_transfererTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_adder, m_adderTag);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		return mpi::CommThread::commThread
+			.registerReceiver(mpiComm.comm(), m_deleter, m_deleterTag);
+	}
+
 	/**
 	 * Retrieves a global offset of the block
 	 *
diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 1199a1a..9644198 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -139,16 +139,20 @@ public:
 		m_comm = mpiComm.comm();
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
-			asagi::Grid::Error err = mpi::CommThread::commThread
+			err = mpi::CommThread::commThread
 				.registerReceiver(m_comm, *this, m_tag);
-			if (err != asagi::Grid::SUCCESS)
-				return err;
 
-			m_sendRecvMutex = new threads::Mutex();
+			if (err == asagi::Grid::SUCCESS)
+				m_sendRecvMutex = new threads::Mutex();
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_tag);
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_tag);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
diff --git a/transfer/mpiwincache.h b/transfer/mpiwincache.h
index 6dfd886..1604846 100644
--- a/transfer/mpiwincache.h
+++ b/transfer/mpiwincache.h
@@ -166,39 +166,29 @@ public:
 			return err;
 
 		// Setup the parent
-		MPICache<allocator::MPIAlloc, true>::init(cacheSize,
+		err = MPICache<allocator::MPIAlloc, true>::init(cacheSize,
 				blockCount, mpiComm, numaComm);
 
-		if (m_numaDomainId == 0) {
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-
-			m_dictWinMutex = new threads::Mutex();
-
-			if (MPI_Win_create(dictionary(),
-				sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
-				sizeof(long),
-				MPI_INFO_NULL,
-				mpiComm.comm(),
-				&m_dictWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
-
-			// Create the MPI mutex
-			m_mpiMutex = new mpi::Mutex();
-			m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
-
-			// Create cache window mutex
-			m_cacheWinMutex = new threads::Mutex();
-
-			// Create the window to access the cache
-			if (MPI_Win_create(cache,
-				m_typeSize * blockSize * rankCacheSize(),
-				m_typeSize,
-				MPI_INFO_NULL,
-				mpiComm.comm(),
-				&m_cacheWin) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+		// Initialize the mutex memory
+		if (err == asagi::Grid::SUCCESS) {
+			for (unsigned long i = blockCount * m_numaDomainId;
+					i < blockCount * (m_numaDomainId+1); i++)
+				mpi::Mutex::initMutexMem(dictionary(i)[dictEntrySize()]);
 		}
 
+		// The whole dictionary has to be initialized before other ranks
+		// can access it
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		if (m_numaDomainId == 0)
+			err = createWindows(cache, blockCount, mpiComm, numaComm);
+
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
 		err = numaComm.broadcast(m_dictWinMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
@@ -219,11 +209,6 @@ public:
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-		// Initialize the mutex memory
-		for (unsigned long i = blockCount * m_numaDomainId;
-				i < blockCount * (m_numaDomainId+1); i++)
-			m_mpiMutex->initMutexMem(dictionary(i)[dictEntrySize()]);
-
 		return asagi::Grid::SUCCESS;
 	}
 
@@ -570,6 +555,46 @@ public:
 		m_dictWinMutex->unlock();
 #endif // THREADSAFE_MPI
 	}
+
+private:
+	/**
+	 * Creates the windows and the mutexes
+	 */
+	asagi::Grid::Error createWindows(unsigned char* cache,
+			unsigned long blockCount,
+			mpi::MPIComm &mpiComm,
+			const numa::NumaComm &numaComm)
+	{
+		std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
+		m_dictWinMutex = new threads::Mutex();
+
+		if (MPI_Win_create(dictionary(),
+			sizeof(long) * totalDictEntrySize() * blockCount * numaComm.totalDomains(),
+			sizeof(long),
+			MPI_INFO_NULL,
+			mpiComm.comm(),
+			&m_dictWin) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		// Create the MPI mutex
+		m_mpiMutex = new mpi::Mutex();
+		m_mpiMutex->init(mpiComm, m_dictWin, numaComm);
+
+		// Create cache window mutex
+		m_cacheWinMutex = new threads::Mutex();
+
+		// Create the window to access the cache
+		if (MPI_Win_create(cache,
+			m_typeSize * m_blockSize * rankCacheSize(),
+			m_typeSize,
+			MPI_INFO_NULL,
+			mpiComm.comm(),
+			&m_cacheWin) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		return asagi::Grid::SUCCESS;
+	}
 };
 
 #endif // ASAGI_NOMPI
diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index b9bf6b0..49a92e9 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -123,6 +123,7 @@ public:
 		m_blockSize = blockSize;
 		m_mpiType = type.getMPIType();
 
+		asagi::Grid::Error err = asagi::Grid::SUCCESS;
 		if (m_numaDomainId == 0) {
 			unsigned int typeSize = type.size();
 
@@ -137,10 +138,14 @@ public:
 					MPI_INFO_NULL,
 					mpiComm.comm(),
 					&m_window) != MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+				err = asagi::Grid::MPI_ERROR;
 		}
 
-		asagi::Grid::Error err = numaComm.broadcast(m_winMutex);
+		err = numaComm.agree(err);
+		if (err != asagi::Grid::SUCCESS)
+			return err;
+
+		err = numaComm.broadcast(m_winMutex);
 		if (err != asagi::Grid::SUCCESS)
 			return err;
 
-- 
2.43.0


From 56ba68f503cf81d0cf2938aa3d2ce76f84bcb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 07/39] fix: threads with NUMA errors take part in the
 registration barrier

---
 numa/numa.cpp | 44 +++++++++++++++++++++++++++++++-------------
 numa/numa.h   |  3 +++
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 469f4d2..0232ade 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -48,6 +48,7 @@
 numa::Numa::Numa()
 	: m_totalThreads(1),
 	  m_initialized(false),
+	  m_error(asagi::Grid::SUCCESS),
 	  m_keyError(false)
 {
 	if (pthread_key_create(&m_ptkey, 0L) != 0)
@@ -75,22 +76,30 @@ numa::Numa::~Numa()
 asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNumaDomains)
 {
 	if (m_initialized) {
+		if (m_error != asagi::Grid::SUCCESS)
+			return m_error;
+
 		masterThread = m_masterThreads[threadId()];
 		return asagi::Grid::SUCCESS;
 	}
 
+	// A thread with an error has to enter the barrier as well
+	asagi::Grid::Error err = asagi::Grid::SUCCESS;
+
 	// Get the NUMA domain
 #ifndef __APPLE__
 	int cpu = sched_getcpu();
 	if (cpu < 0)
-		return asagi::Grid::NUMA_ERROR;
+		err = asagi::Grid::NUMA_ERROR;
 #endif
 #if defined(ASAGI_NONUMA) || defined(__APPLE__)
 	int domain = 0;
 #else // ASAGI_NONUMA || __APPLE__
-	int domain = numa_node_of_cpu(cpu);
+	int domain = -1;
+	if (err == asagi::Grid::SUCCESS)
+		domain = numa_node_of_cpu(cpu);
 	if (domain < 0)
-		return asagi::Grid::NUMA_ERROR;
+		err = asagi::Grid::NUMA_ERROR;
 #endif // ASAGI_NONUMA || __APPLE__
 
 	// Lock all variables
@@ -130,6 +139,21 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 		masterThread = false;
 	}
 
+	// Check if the key was created successfully
+	if (m_keyError)
+		err = asagi::Grid::THREAD_ERROR;
+
+	if (err == asagi::Grid::SUCCESS) {
+		// Store the thread and domain id in the pthread key
+		uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
+
+		if (pthread_setspecific(m_ptkey, reinterpret_cast<void*>(ids)) != 0)
+			err = asagi::Grid::THREAD_ERROR;
+	}
+
+	if (err != asagi::Grid::SUCCESS)
+		m_error = err;
+
 	// Last thread?
 	if (m_syncThreads.waiting() >= m_totalThreads-1)
 		m_initialized = true;
@@ -137,20 +161,14 @@ asagi::Grid::Error numa::Numa::registerThread(bool &masterThread, bool detectNum
 	// Wait for all threads
 	if (!m_syncThreads.waitBarrier(m_totalThreads))
 		return asagi::Grid::THREAD_ERROR;
-	if (!m_syncThreads.endBarrier())
-		return asagi::Grid::THREAD_ERROR;
-
-	// Check if the key was created successfully
-	if (m_keyError)
-		return asagi::Grid::THREAD_ERROR;
 
-	// Finally store the thread and domain id in the pthread key
-	uintptr_t ids = (static_cast<uintptr_t>(threadId) << sizeof(id_t)*8) | domainId;
+	// All threads have to see the same result
+	err = m_error;
 
-	if (pthread_setspecific(m_ptkey, reinterpret_cast<void*>(ids)) != 0)
+	if (!m_syncThreads.endBarrier())
 		return asagi::Grid::THREAD_ERROR;
 
-	return asagi::Grid::SUCCESS;
+	return err;
 }
 
 /**
diff --git a/numa/numa.h b/numa/numa.h
index 236a114..d0a6eea 100644
--- a/numa/numa.h
+++ b/numa/numa.h
@@ -92,6 +92,9 @@ private:
 	/** True if the threads/domains are already initialized */
 	bool m_initialized;
 
+	/** The first error that occured while registering the threads */
+	asagi::Grid::Error m_error;
+
 	/** True, if the key could not be created */
 	bool m_keyError;
 
-- 
2.43.0


From 1b66d497b3926989d6e1723afd4697792fa5aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 08/39] fix: tolerate spurious wake-ups and lock failures in
 barriers

---
 threads/sync.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/threads/sync.h b/threads/sync.h
index b523241..ec099c4 100644
--- a/threads/sync.h
+++ b/threads/sync.h
@@ -106,11 +106,14 @@ public:
 	 */
 	bool startBarrier()
 	{
-		if (!pthread_mutex_lock(&m_mutex))
+		if (pthread_mutex_lock(&m_mutex) != 0)
+			return false;
 
-		if (m_finishing) {
-			if (pthread_cond_wait(&m_finishCondition, &m_mutex))
+		while (m_finishing) {
+			if (pthread_cond_wait(&m_finishCondition, &m_mutex) != 0) {
+				pthread_mutex_unlock(&m_mutex);
 				return false;
+			}
 		}
 
 		return true;
@@ -139,14 +142,16 @@ public:
 				return false;
 			}
 		} else {
-			if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
-				pthread_mutex_unlock(&m_mutex);
-				return false;
+			while (!m_finishing) {
+				if (pthread_cond_wait(&m_condition, &m_mutex) != 0) {
+					pthread_mutex_unlock(&m_mutex);
+					return false;
+				}
 			}
 		}
 
 		// If this is a last, wait for all other threads
-		if (last && m_syncedThreads > m_lastThreads) {
+		while (last && m_syncedThreads > m_lastThreads) {
 			if (pthread_cond_wait(&m_lastCondition, &m_mutex) != 0) {
 				pthread_mutex_unlock(&m_mutex);
 				return false;
-- 
2.43.0


From c482e3528897df01c99f7940a6af8c4dcb351c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 09/39] fix: keep the LRU hands inside the cache for large hand
 spreads

---
 cache/lru.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/lru.h b/cache/lru.h
index 625f5ac..3e156d4 100644
--- a/cache/lru.h
+++ b/cache/lru.h
@@ -82,7 +82,8 @@ public:
 			// Some default value
 			m_nextClear = size / 2;
 		else
-			m_nextClear = handDiff;
+			// A spread larger than the cache wraps around
+			m_nextClear = handDiff % size;
 
 		m_referenced = new bool[size];
 		// Rest of the array will bet set to "false" by getFree()
-- 
2.43.0


From aaaff2d0ffa2e9d2d8eb8e3a099a0c2eee67d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 10/39] fix: use the NUMA aware cache if NUMA communication is
 enabled

---
 grid/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index 61ca5ae..ee3b668 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -352,9 +352,9 @@ void grid::Grid::initContainers()
 	if (gridType == "CACHE") {
 		if (mpiType == "OFF") {
 			if (numaType == "OFF")
-				containerType = CACHE_NUMA;
-			else
 				containerType = CACHE;
+			else
+				containerType = CACHE_NUMA;
 		} else if (mpiType == "THREAD") {
 			if (numaType == "OFF")
 				containerType = CACHE_MPITHREAD;
-- 
2.43.0


From d5a2f7a6122237fb2ffabed452274cf1bc9d9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 11/39] fix: keep the sign of numeric parameters

---
 grid/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grid/grid.cpp b/grid/grid.cpp
index ee3b668..72e13b3 100644
--- a/grid/grid.cpp
+++ b/grid/grid.cpp
@@ -205,7 +205,10 @@ void grid::Grid::setParam(const char* name, const char* value, unsigned int leve
 	if (n != "VARIABLE"
 			&& !utils::StringUtils::startsWith(n, "BLOCK_SIZE_")) {
 		utils::StringUtils::toUpper(v);
-		std::replace(v.begin(), v.end(), '-', '_');
+
+		// Keep the sign of numbers
+		if (v.find_first_not_of("+-0123456789") != std::string::npos)
+			std::replace(v.begin(), v.end(), '-', '_');
 	}
 
 	m_params[level][n] = v;
-- 
2.43.0


From c679ceaa474c7caf719ed3a3f08ea9b4a90f456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 12/39] fix: use the same error codes in the C interface

---
 include/asagi.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asagi.h b/include/asagi.h
index c9a6757..8b9de1e 100644
--- a/include/asagi.h
+++ b/include/asagi.h
@@ -438,7 +438,6 @@ typedef enum {
 	ASAGI_VAR_NOT_FOUND,
 	ASAGI_WRONG_SIZE,
 	ASAGI_UNSUPPORTED_DIMENSIONS,
-	ASAGI_MULTIPLE_TOPGRIDS,
 	ASAGI_INVALID_VAR_SIZE
 } asagi_error;
 #endif
-- 
2.43.0


From 107595413d07e3419f4fed49d6821fd836b34640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 13/39] fix: select the last CPUs for negative CPU ids

---
 mpi/commthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 6a64b0e..9d5f4be 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -165,7 +165,7 @@ public:
 			if (schedCPU >= 0)
 				CPU_SET(schedCPU, &cpuset);
 			else
-				CPU_SET(numCPUs - schedCPU, &cpuset);
+				CPU_SET(numCPUs + schedCPU, &cpuset);
 
 			pthread_setaffinity_np(m_thread, sizeof(cpu_set_t), &cpuset);
 		} else
-- 
2.43.0


From 70b1eb70f6a4dec378c6ebef90656bf2afd5fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 14/39] fix: receive block information with the tag it was sent
 with

---
 transfer/mpithreadcache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 219dbbf..f64b330 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -460,7 +460,7 @@ public:
 		mpi::CommThread::commThread.send(m_blockInfoTag, dictRank, dictOffset);
 
 		long entry;
-		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, ENTRY_TAG,
+		mpiResult = MPI_Recv(&entry, 1, MPI_LONG, dictRank, m_tagOffset+ENTRY_TAG,
 				mpiComm().comm(), MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 
-- 
2.43.0


From 3551b2de09d927d933f1a7c4fcb461990e13039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 15/39] fix: do not mix up the replies of different levels

---
 transfer/mpithreadfull.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadfull.h b/transfer/mpithreadfull.h
index 9644198..ce08913 100644
--- a/transfer/mpithreadfull.h
+++ b/transfer/mpithreadfull.h
@@ -179,7 +179,7 @@ public:
 
 		mpi::CommThread::commThread.send(m_tag, remoteRank, offset);
 
-		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, 0, m_comm, MPI_STATUS_IGNORE);
+		mpiResult = MPI_Recv(cache, m_blockSize, m_mpiType, remoteRank, m_tag, m_comm, MPI_STATUS_IGNORE);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 
@@ -190,7 +190,7 @@ public:
 		int mpiResult; NDBG_UNUSED(mpiResult);
 
 		mpiResult = MPI_Send(const_cast<unsigned char*>(&m_data[blockId*m_blockSize*m_typeSize]),
-				m_blockSize, m_mpiType, sender, 0, m_comm);
+				m_blockSize, m_mpiType, sender, m_tag, m_comm);
 		assert(mpiResult == MPI_SUCCESS);
 	}
 };
-- 
2.43.0


From 48645db0135233227b1848a8676bb66f630549cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 16/39] fix: protect the receivers of the communication thread

---
 mpi/commthread.h | 76 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 9d5f4be..7463702 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -113,6 +113,9 @@ private:
 	/** Lock used for thread safety */
 	threads::Mutex m_lock;
 
+	/** Protects the map of receivers (never locked while waiting for another process) */
+	threads::Mutex m_receiverLock;
+
 private:
 	CommThread()
 		: m_comm(MPI_COMM_NULL), m_group(MPI_GROUP_NULL), m_rank(0),
@@ -184,6 +187,10 @@ public:
 		// Lock this class (just the be sure)
 		std::lock_guard<threads::Mutex> lock(m_lock);
 
+		if (m_comm == MPI_COMM_NULL)
+			// Not running
+			return;
+
 		// Send exit signal
 		message_t data = 0;
 		MPI_Request request; // Use asynchronous send to work around a deadlock with Intel MPI
@@ -200,10 +207,14 @@ public:
 		m_nextTag = 0;
 		if (!m_receiver.empty()) {
 			logWarning() << "ASAGI: Not all receivers are removed correctly.";
+			for (std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.begin();
+					it != m_receiver.end(); it++)
+				MPI_Group_free(&it->second.group);
 			m_receiver.clear();
 		}
 
 		// Free the communicator
+		MPI_Group_free(&m_group);
 		MPI_Comm_free(&m_comm);
 	}
 
@@ -234,8 +245,17 @@ public:
 		// Save the receiver
 		ReceiverDetail detail;
 		detail.recv = &receiver;
-		MPI_Comm_group(comm, &detail.group);
-		m_receiver[tag] = detail;
+		if (MPI_Comm_group(comm, &detail.group) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
+
+		{
+			std::lock_guard<threads::Mutex> receiverLock(m_receiverLock);
+			m_receiver[tag] = detail;
+		}
+
+		// Other processes may send messages as soon as they leave this function
+		if (MPI_Barrier(comm) != MPI_SUCCESS)
+			return asagi::Grid::MPI_ERROR;
 
 		return asagi::Grid::SUCCESS;
 	}
@@ -263,17 +283,53 @@ public:
 	 */
 	void send(int tag, int recv, message_t data)
 	{
-		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
-		if (it == m_receiver.end())
+		ReceiverDetail detail;
+		if (!findReceiver(tag, detail))
 			logWarning() << "ASAGI: Sending message from unregistered tag" << tag;
 		else {
 			int recvRank;
-			MPI_Group_translate_ranks(it->second.group, 1, &recv, m_group, &recvRank);
+			MPI_Group_translate_ranks(detail.group, 1, &recv, m_group, &recvRank);
 			MPI_Send(&data, 1, MPI_MESSAGE, recvRank, tag, m_comm);
 		}
 	}
 
 private:
+	/**
+	 * Looks up a receiver
+	 *
+	 * @param tag The tag identifying the receiver
+	 * @param[out] detail The description of the receiver
+	 * @return True if the receiver is registered
+	 */
+	bool findReceiver(int tag, ReceiverDetail &detail)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::const_iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return false;
+
+		detail = it->second;
+		return true;
+	}
+
+	/**
+	 * Removes a receiver
+	 *
+	 * @param tag The tag identifying the receiver
+	 */
+	void eraseReceiver(int tag)
+	{
+		std::lock_guard<threads::Mutex> lock(m_receiverLock);
+
+		std::unordered_map<int, ReceiverDetail>::iterator it = m_receiver.find(tag);
+		if (it == m_receiver.end())
+			return;
+
+		MPI_Group_free(&it->second.group);
+		m_receiver.erase(it);
+	}
+
 	/**
 	 * Main function of the communication thread
 	 */
@@ -296,18 +352,18 @@ private:
 				if (status.MPI_SOURCE != commThread.m_rank)
 					logError() << "Rank is not allowed to send unregister command";
 
-				commThread.m_receiver.erase(data);
+				commThread.eraseReceiver(data);
 				commThread.m_lock.unlock(); // Release the lock from unregisterReceiver
 				continue;
 			}
 
-			std::unordered_map<int, ReceiverDetail>::const_iterator it = commThread.m_receiver.find(status.MPI_TAG);
-			if (it == commThread.m_receiver.end())
+			ReceiverDetail detail;
+			if (!commThread.findReceiver(status.MPI_TAG, detail))
 				logWarning() << "ASAGI: Received unregistered message with tag" << status.MPI_TAG;
 			else {
 				int senderRank;
-				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, it->second.group, &senderRank);
-				it->second.recv->recv(senderRank, data);
+				MPI_Group_translate_ranks(commThread.m_group, 1, &status.MPI_SOURCE, detail.group, &senderRank);
+				detail.recv->recv(senderRank, data);
 			}
 		}
 
-- 
2.43.0


From 97502c58ea4cb7083c951c6e74e2c988e26e2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 17/39] fix: trying to lock the no-op mutex succeeds

---
 threads/noopmutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threads/noopmutex.h b/threads/noopmutex.h
index 05f4e41..37930cf 100644
--- a/threads/noopmutex.h
+++ b/threads/noopmutex.h
@@ -60,7 +60,7 @@ public:
 	 */
 	bool try_lock()
 	{
-		return false;
+		return true;
 	}
 
 	/**
-- 
2.43.0


From 4a5940226e83caa5f34afeab7e67315fffa272b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 18/39] fix: do not treat the communication thread as running
 if it could not be started

---
 mpi/commthread.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index 7463702..bd232ea 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -154,8 +154,13 @@ public:
 			return asagi::Grid::MPI_ERROR;
 
 		// Start the thread
-		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0)
+		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0) {
+			// The communication thread is not running
+			MPI_Group_free(&m_group);
+			MPI_Comm_free(&m_comm);
+
 			return asagi::Grid::THREAD_ERROR;
+		}
 
 #ifndef __APPLE__
 		// Pin the thread
-- 
2.43.0


From ad769ff2395f683b626170ec89bb6e3d2437d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 19/39] fix: unregister the receivers before deleting the data
 they use

---
 transfer/mpithreadcache.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index f64b330..22bee1a 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -323,14 +323,18 @@ public:
 
 	virtual ~MPIThreadCache()
 	{
-		if (m_numaDomainId == 0 && m_blockInfoTag >= 0) {
-			delete [] m_cacheManager;
-
-			mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
-			mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
+		if (m_numaDomainId == 0) {
+			// Stop all requests before deleting the data
+			if (m_blockInfoTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_blockInfoTag);
+			if (m_transfererTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_transfererTag);
+			if (m_adderTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_adderTag);
+			if (m_deleterTag >= 0)
+				mpi::CommThread::commThread.unregisterReceiver(m_deleterTag);
 
+			delete [] m_cacheManager;
 			delete [] m_mutexes;
 			delete m_infoMutex;
 			delete m_blockMutex;
-- 
2.43.0


From f4919c75d4b22f6e6bcf344b4964f6ee8d858b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 20/39] fix: do not lose a directory entry when removing one
 that is not stored

---
 transfer/mpicache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transfer/mpicache.h b/transfer/mpicache.h
index dccbc01..6603245 100644
--- a/transfer/mpicache.h
+++ b/transfer/mpicache.h
@@ -199,6 +199,10 @@ protected:
 				break;
 		}
 
+		if (i == m_dictEntrySize)
+			// The entry was already replaced by newer ones
+			return;
+
 		for (; i < m_dictEntrySize-1; i++)
 			dictEntry[i] = dictEntry[i+1];
 
-- 
2.43.0


From 9a418dcf531e3a5d9897273903153ed92816e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 21/39] fix: delete the window mutex if the window could not be
 created

---
 transfer/mpiwinfull.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/transfer/mpiwinfull.h b/transfer/mpiwinfull.h
index 49a92e9..056cf47 100644
--- a/transfer/mpiwinfull.h
+++ b/transfer/mpiwinfull.h
@@ -94,11 +94,15 @@ public:
 
 	virtual ~MPIWinFull()
 	{
-		if (m_numaDomainId == 0 && m_window != MPI_WIN_NULL) {
+		if (m_numaDomainId == 0) {
 			delete m_winMutex;
 
-			std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
-			MPI_Win_free(&m_window);
+			if (m_window != MPI_WIN_NULL) {
+				// Lock mpi
+				std::lock_guard<mpi::Lock> lock(mpi::MPIComm::mpiLock);
+
+				MPI_Win_free(&m_window);
+			}
 		}
 	}
 
-- 
2.43.0


From efa78aa82fb3d2721045869b4ec89a6826d03718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 22/39] fix: make the results of the one-time initialisation
 visible to all threads

---
 threads/once.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threads/once.h b/threads/once.h
index 609e46b..8f87f94 100644
--- a/threads/once.h
+++ b/threads/once.h
@@ -38,6 +38,7 @@
 #ifndef THREADS_ONCE_H
 #define THREADS_ONCE_H
 
+#include <atomic>
 #include <mutex>
 
 #include "mutex.h"
@@ -51,7 +52,7 @@ namespace threads
 class Once {
 private:
 	/** Already executed */
-	bool m_state;
+	std::atomic<bool> m_state;
 
 	/** Mutex to lock the state */
 	Mutex m_mutex;
-- 
2.43.0


From 3a8c227ae2920214596ba5db2f73034cb44ed6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 23/39] fix: lock the Fortran handles while reading and
 removing them

---
 fortran/pointerarray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fortran/pointerarray.h b/fortran/pointerarray.h
index 97d6d18..d9fd08c 100644
--- a/fortran/pointerarray.h
+++ b/fortran/pointerarray.h
@@ -61,9 +61,10 @@ private:
 	std::vector<T*> m_pointers;
 
 	/**
-	 * Lock, we use to make sure only one thread at a time adds a pointer
+	 * Lock, we use to make sure only one thread at a time accesses the
+	 * pointers
 	 */
-	threads::Mutex m_lock;
+	mutable threads::Mutex m_lock;
 public:
 	/**
 	 * Add a new pointer to the map
@@ -85,6 +86,8 @@ public:
 	 */
 	T* get(int i) const
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
@@ -96,6 +99,8 @@ public:
 	 */
 	void remove(int i)
 	{
+		std::lock_guard<threads::Mutex> lock(m_lock);
+
 		assert(i >= 0 &&
 			static_cast<unsigned int>(i) < m_pointers.size());
 		
-- 
2.43.0


From 66b8f40428830ca0268f0cdd986559da206c5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 24/39] fix: use the same signature for registering threads
 without NUMA

---
 numa/nonuma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numa/nonuma.h b/numa/nonuma.h
index 8c39aaa..7a5da54 100644
--- a/numa/nonuma.h
+++ b/numa/nonuma.h
@@ -72,7 +72,7 @@ public:
 	 * @param[out] masterThread Will be set to <code>true</code> since only
 	 *  one thread should exist.
 	 */
-	asagi::Grid::Error registerThread(bool &masterThread)
+	asagi::Grid::Error registerThread(bool &masterThread, bool detectNumaDomains = true)
 	{
 		masterThread = true;
 		return asagi::Grid::SUCCESS;
-- 
2.43.0


From 435e5efe95d6106e017820d8fa7fa8db4aeac1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 25/39] fix: report open files as open

---
 io/netcdfreader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/netcdfreader.h b/io/netcdfreader.h
index 9d377de..d4b3b98 100644
--- a/io/netcdfreader.h
+++ b/io/netcdfreader.h
@@ -115,7 +115,7 @@ public:
 	 */
 	bool isOpen() const
 	{
-		return m_file < 0;
+		return m_file >= 0;
 	}
 	
 	/**
-- 
2.43.0


From 4bd5a38be70bceca3c4434d842b449ccd11ff35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 26/39] fix: reject scalar variables

---
 io/netcdfreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/netcdfreader.cpp b/io/netcdfreader.cpp
index 801bcf4..1148c37 100644
--- a/io/netcdfreader.cpp
+++ b/io/netcdfreader.cpp
@@ -90,7 +90,7 @@ asagi::Grid::Error io::NetCdfReader::open(const char* varname)
 
 	nc_inq_varndims(m_file, m_variable, &m_dimensions);
 	
-	if (m_dimensions > MAX_DIMENSIONS) {
+	if (m_dimensions < 1 || m_dimensions > MAX_DIMENSIONS) {
 		logDebug(m_rank) << "Unsupported number of variable dimensions:"
 			<< m_dimensions;
 
-- 
2.43.0


From 5901e3cb22cf33ff04c95298f214be60e2001ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 27/39] fix: close the input file of a failed open

---
 grid/level/level.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grid/level/level.h b/grid/level/level.h
index 9250297..add5bcb 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -219,6 +219,9 @@ protected:
 		asagi::Grid::Error err;
 
 		// Open NetCDF file
+		// Close the file from a failed open
+		closeInputFile();
+
 		m_inputFile = new io::NetCdfReader(filename, comm().rank());
 		if ((err = m_inputFile->open(varname)) != asagi::Grid::SUCCESS)
 			return err;
-- 
2.43.0


From be4d3cce00ee60e659a4b515790fce2c2332c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 28/39] fix: lock MPI in barriers

---
 mpi/mpicomm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index f6d8d48..d75b4ec 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -147,6 +147,9 @@ public:
 	 */
 	void barrier() const
 	{
+		// Lock mpi
+		std::lock_guard<Lock> lock(mpiLock);
+
 		MPI_Barrier(m_comm);
 	}
 
-- 
2.43.0


From 18b3006df212a4e8250c4bb787af7a7d815f1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 29/39] fix: do not synchronize errors without a NUMA
 communicator

---
 grid/level/cache.h | 3 +++
 grid/level/full.h  | 3 +++
 grid/level/level.h | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/grid/level/cache.h b/grid/level/cache.h
index 09da7a9..91d5112 100644
--- a/grid/level/cache.h
+++ b/grid/level/cache.h
@@ -96,6 +96,9 @@ public:
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
 
+		if (!this->hasNumaComm())
+			return asagi::Grid::THREAD_ERROR;
+
 		// Stop all domains if one of them failed
 		err = this->numa().agree(err);
 		if (err != asagi::Grid::SUCCESS)
diff --git a/grid/level/full.h b/grid/level/full.h
index 6ce3d28..f3dcbd8 100644
--- a/grid/level/full.h
+++ b/grid/level/full.h
@@ -95,6 +95,9 @@ public:
 		asagi::Grid::Error err = Blocked<Type>::open(filename, varname,
 				blockSize, timeDimension, valuePos);
 
+		if (!this->hasNumaComm())
+			return asagi::Grid::THREAD_ERROR;
+
 		// Stop all domains if one of them failed
 		err = this->numa().agree(err);
 		if (err != asagi::Grid::SUCCESS)
diff --git a/grid/level/level.h b/grid/level/level.h
index add5bcb..50354dd 100644
--- a/grid/level/level.h
+++ b/grid/level/level.h
@@ -289,6 +289,14 @@ protected:
 		return *m_mpiComm;
 	}
 
+	/**
+	 * @return True if the NUMA communicator could be created
+	 */
+	bool hasNumaComm() const
+	{
+		return m_numaComm != 0L;
+	}
+
 	/**
 	 * @return The NUMA communicator
 	 */
-- 
2.43.0


From 3c919e491ef5b121aded07422e8a1c37edf4db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 30/39] fix: do not copy open levels when adding a new level

---
 grid/simplecontainer.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/grid/simplecontainer.h b/grid/simplecontainer.h
index 16ae028..da4f4d2 100644
--- a/grid/simplecontainer.h
+++ b/grid/simplecontainer.h
@@ -55,7 +55,7 @@ class SimpleContainer : public TypedContainer<Type>
 {
 private:
 	/** All grids we control */
-	std::vector<Level> m_levels;
+	std::vector<Level*> m_levels;
 
 public:
 	/**
@@ -72,7 +72,9 @@ public:
 
 	virtual ~SimpleContainer()
 	{
-		m_levels.clear();
+		for (typename std::vector<Level*>::const_iterator it = m_levels.begin();
+				it != m_levels.end(); it++)
+			delete *it;
 	}
 	
 	asagi::Grid::Error init(const char* filename,
@@ -82,11 +84,10 @@ public:
 			int cacheHandSpread,
 			unsigned int level)
 	{
-		if (m_levels.size() <= level)
-			m_levels.resize(level+1,
-					Level(this->comm(), this->numa(), this->type()));
+		while (m_levels.size() <= level)
+			m_levels.push_back(new Level(this->comm(), this->numa(), this->type()));
 
-		asagi::Grid::Error err = m_levels[level].open(
+		asagi::Grid::Error err = m_levels[level]->open(
 				filename,
 				varname,
 				blockSize,
@@ -99,12 +100,12 @@ public:
 
 		if (level == 0) {
 			// Set dimensions
-			this->m_dimensions = m_levels[0].dimensions();
+			this->m_dimensions = m_levels[0]->dimensions();
 
 			// Set min/max/...
-			for (unsigned int i = 0; i < m_levels[0].dimensions(); i++) {
-				this->m_min[i] = m_levels[0].min(i);
-				this->m_max[i] = m_levels[0].max(i);
+			for (unsigned int i = 0; i < m_levels[0]->dimensions(); i++) {
+				this->m_min[i] = m_levels[0]->min(i);
+				this->m_max[i] = m_levels[0]->max(i);
 			}
 		}
 
@@ -116,7 +117,7 @@ public:
 		assert(n < MAX_DIMENSIONS);
 		assert(level < m_levels.size());
 
-		return m_levels[level].delta(n);
+		return m_levels[level]->delta(n);
 	}
 
 	CONTAINER_GETVAR
@@ -131,7 +132,7 @@ public:
 	{
 		assert(level < m_levels.size());
 
-		m_levels[level].getAt(buf, pos);
+		m_levels[level]->getAt(buf, pos);
 	}
 
 	unsigned long getCounter(perf::Counter::CounterType type,
@@ -139,7 +140,7 @@ public:
 	{
 		assert(level < m_levels.size());
 
-		return m_levels[level].getCounter(type);
+		return m_levels[level]->getCounter(type);
 	}
 };
 
-- 
2.43.0


From c07648828c65cca5847a4852122929f6e847892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 31/39] fix: complete the MPI type before other threads can use
 it

---
 types/arraytype.h  | 26 ++++++++++++++------------
 types/structtype.h | 33 +++++++++++++++++----------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index 5cfc734..ff44ffd 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -44,6 +44,7 @@
 
 #include "basictype.h"
 #include "io/netcdfreader.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -79,8 +80,12 @@ public:
 	virtual ~ArrayType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			// Lock mpi
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Type_free(&m_mpiType);
+		}
 #endif // ASAGI_NOMPI
 	}
 
@@ -95,27 +100,24 @@ public:
 		unsigned int arraySize = file.getVarSize() / sizeof(T);
 
 		// Lock the array size
-		m_lock.lock();
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_arraySize == 0) {
-			m_arraySize = arraySize;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
+			// Lock mpi
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			// Create the mpi datatype
-			if (MPI_Type_contiguous(m_arraySize, BasicType<T>::getMPIType(),
+			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
-			if (arraySize != m_arraySize)
-				return asagi::Grid::WRONG_SIZE;
-		}
+			m_arraySize = arraySize;
+		} else if (arraySize != m_arraySize)
+			return asagi::Grid::WRONG_SIZE;
 
 		return asagi::Grid::SUCCESS;
 	}
diff --git a/types/structtype.h b/types/structtype.h
index ee5cb20..c42bb26 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -43,6 +43,7 @@
 #include <mutex>
 
 #include "basictype.h"
+#include "mpi/mpicomm.h"
 #include "threads/mutex.h"
 
 namespace types {
@@ -128,8 +129,12 @@ public:
 	virtual ~StructType()
 	{
 #ifndef ASAGI_NOMPI
-		if (m_mpiType != MPI_DATATYPE_NULL)
+		if (m_mpiType != MPI_DATATYPE_NULL) {
+			// Lock mpi
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Type_free(&m_mpiType);
+		}
 
 		delete [] m_blockLength;
 		delete [] m_displacements;
@@ -144,14 +149,14 @@ public:
 	{
 		unsigned int size = file.getVarSize();
 
-		m_lock.lock();
+		// Lock the size
+		std::lock_guard<threads::Mutex> lock(m_lock);
 
 		if (m_size == 0) {
-			m_size = size;
-
-			m_lock.unlock();
-
 #ifndef ASAGI_NOMPI
+			// Lock mpi
+			std::lock_guard<mpi::Lock> mpiLock(mpi::MPIComm::mpiLock);
+
 			MPI_Datatype tmpType;
 
 			// Create the mpi datatype
@@ -162,14 +167,12 @@ public:
 					m_types,
 					&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_create_resized(tmpType, 0, size, &m_mpiType)
-					!= MPI_SUCCESS)
-				return asagi::Grid::MPI_ERROR;
+			int mpiResult = MPI_Type_create_resized(tmpType, 0, size, &m_mpiType);
 
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_free(&tmpType) != MPI_SUCCESS || mpiResult != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
-			if (MPI_Type_free(&tmpType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
 			// We do not need them anymore
@@ -181,12 +184,10 @@ public:
 			m_displacements = 0L;
 			m_types = 0L;
 #endif // ASAGI_NOMPI
-		} else {
-			std::lock_guard<threads::Mutex> lock(m_lock, std::adopt_lock);
 
-			if (size != m_size)
-				return asagi::Grid::WRONG_SIZE;
-		}
+			m_size = size;
+		} else if (size != m_size)
+			return asagi::Grid::WRONG_SIZE;
 
 		return asagi::Grid::SUCCESS;
 	}
-- 
2.43.0


From 93d2ba8a3fed83d38d004a4e9074dfc7456ed40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 32/39] fix: reserve the tags for replies before requests can
 arrive

---
 transfer/mpithreadcache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transfer/mpithreadcache.h b/transfer/mpithreadcache.h
index 22bee1a..81d3347 100644
--- a/transfer/mpithreadcache.h
+++ b/transfer/mpithreadcache.h
@@ -386,11 +386,12 @@ public:
 			// Create the mutexes for the blocks
 			m_mutexes = new threads::Mutex[blockCount * m_numaDomainSize];
 
+			// The tags for the replies have to be known before requests arrive
+			m_tagOffset = mpiComm.reserveTags(3);
+
 			// Initialize the receivers
 			err = registerReceivers(mpiComm);
 
-			m_tagOffset = mpiComm.reserveTags(3);
-
 			m_infoMutex = new threads::Mutex();
 			m_blockMutex = new threads::Mutex();
 		}
-- 
2.43.0


From 0bb688885f9de526a65635451ea8bc97d4400d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 33/39] fix: a failed start of the communication thread was
 treated as a running thread

---
 mpi/commthread.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpi/commthread.h b/mpi/commthread.h
index bd232ea..881fbeb 100644
--- a/mpi/commthread.h
+++ b/mpi/commthread.h
@@ -147,11 +147,20 @@ public:
 		// Setup the communicator
 		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
-		if (MPI_Comm_group(m_comm, &m_group) != MPI_SUCCESS)
+		if (MPI_Comm_group(m_comm, &m_group) != MPI_SUCCESS) {
+			// The communication thread is not running
+			MPI_Comm_free(&m_comm);
+
 			return asagi::Grid::MPI_ERROR;
+		}
+
+		if (MPI_Comm_rank(m_comm, &m_rank) != MPI_SUCCESS) {
+			// The communication thread is not running
+			MPI_Group_free(&m_group);
+			MPI_Comm_free(&m_comm);
 
-		if (MPI_Comm_rank(m_comm, &m_rank))
 			return asagi::Grid::MPI_ERROR;
+		}
 
 		// Start the thread
 		if (pthread_create(&m_thread, 0L, &commThreadHandler, 0L) != 0) {
-- 
2.43.0


From 31d31fa54c6a640042ff7b3a53d6a93471a6fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 34/39] fix: typed queries on array and struct grids return the
 first element instead of overflowing the result

---
 types/arraytype.h  | 3 +++
 types/structtype.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/types/arraytype.h b/types/arraytype.h
index ff44ffd..dce5cf6 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -145,6 +145,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// The conversions to basic types work on the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
diff --git a/types/structtype.h b/types/structtype.h
index c42bb26..31bbd83 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -215,6 +215,9 @@ public:
 		file.getBlock<void>(buf, offset, size);
 	}
 
+	// The conversions to basic types work on the first element
+	using BasicType<T>::convert;
+
 	/**
 	 * @copydoc BasicType::convert(const void*, void*)
 	 */
-- 
2.43.0


From db2c426d5e6320c6a6531be4788f4a597c04e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 35/39] fix: free the array type if committing it fails

---
 types/arraytype.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types/arraytype.h b/types/arraytype.h
index dce5cf6..34fc0a3 100644
--- a/types/arraytype.h
+++ b/types/arraytype.h
@@ -111,8 +111,11 @@ public:
 			if (MPI_Type_contiguous(arraySize, BasicType<T>::getMPIType(),
 					&m_mpiType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				// The next check creates a new type
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 #endif // ASAGI_NOMPI
 
 			m_arraySize = arraySize;
-- 
2.43.0


From 559a90fd77ca7c33117499c7e7537bd1544dcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 36/39] fix: free the struct type if it cannot be finished

---
 types/structtype.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/types/structtype.h b/types/structtype.h
index 31bbd83..956e0e6 100644
--- a/types/structtype.h
+++ b/types/structtype.h
@@ -168,12 +168,17 @@ public:
 					&tmpType) != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 			int mpiResult = MPI_Type_create_resized(tmpType, 0, size, &m_mpiType);
+			int freeResult = MPI_Type_free(&tmpType);
 
-			if (MPI_Type_free(&tmpType) != MPI_SUCCESS || mpiResult != MPI_SUCCESS)
+			if (mpiResult != MPI_SUCCESS)
 				return asagi::Grid::MPI_ERROR;
 
-			if (MPI_Type_commit(&m_mpiType) != MPI_SUCCESS)
+			if (freeResult != MPI_SUCCESS
+					|| MPI_Type_commit(&m_mpiType) != MPI_SUCCESS) {
+				// The next check creates a new type
+				MPI_Type_free(&m_mpiType);
 				return asagi::Grid::MPI_ERROR;
+			}
 
 			// We do not need them anymore
 			delete [] m_blockLength;
-- 
2.43.0


From 5694d2190f42c554b7397523e8804a668d62dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 37/39] fix: keep the old communicator if the new one cannot be
 duplicated

---
 mpi/mpicomm.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpi/mpicomm.h b/mpi/mpicomm.h
index d75b4ec..40d9a4c 100644
--- a/mpi/mpicomm.h
+++ b/mpi/mpicomm.h
@@ -105,11 +105,14 @@ public:
 	{
 		std::lock_guard<Lock> lock(mpiLock);
 
-		freeComm();
-
-		if (MPI_Comm_dup(comm, &m_comm) != MPI_SUCCESS)
+		// Keep the old communicator if this fails
+		MPI_Comm newComm;
+		if (MPI_Comm_dup(comm, &newComm) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 
+		freeComm();
+		m_comm = newComm;
+
 		if (MPI_Comm_rank(m_comm, &m_rank) != MPI_SUCCESS)
 			return asagi::Grid::MPI_ERROR;
 		if (MPI_Comm_size(m_comm, &m_size) != MPI_SUCCESS)
-- 
2.43.0


From 594683f761996992953fca458f664706d3f0b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 38/39] fix: delete the thread key only if it was created

---
 numa/numa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numa/numa.cpp b/numa/numa.cpp
index 0232ade..c0d1dc1 100644
--- a/numa/numa.cpp
+++ b/numa/numa.cpp
@@ -58,7 +58,8 @@ numa::Numa::Numa()
 
 numa::Numa::~Numa()
 {
-	pthread_key_delete(m_ptkey);
+	if (!m_keyError)
+		pthread_key_delete(m_ptkey);
 }
 
 /**
-- 
2.43.0


From 118247ca967f3c697d5568fc6fe86025a4fca566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:46 +0000
Subject: [PATCH 39/39] fix: nodeLocalRank passed negative colors to
 MPI_Comm_split for some host names

---
 asagi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asagi.cpp b/asagi.cpp
index 278648b..25a3ab4 100644
--- a/asagi.cpp
+++ b/asagi.cpp
@@ -103,7 +103,8 @@ int asagi::Grid::nodeLocalRank(MPI_Comm comm)
 		s2 = (s2 + s1) % 65521;
 	}
 
-	uint32_t hash = (s2 << 16) | s1;
+	// The color in MPI_Comm_split must not be negative
+	uint32_t hash = ((s2 << 16) | s1) & 0x7FFFFFFF;
 	int rank;
 	mpiResult = MPI_Comm_rank(comm, &rank);
 	assert(mpiResult == MPI_SUCCESS);
-- 
2.43.0

