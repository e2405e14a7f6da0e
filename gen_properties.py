#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
M = {
 'C01': [('one wrapper per operation, forwarding to asagi::Grid', 'asagi.cpp, asagi_f90.cpp'), ('three hand-written enumerations', 'include/asagi.h, include/asagi.f90')],
 'C02': [('every step returns an error code that the caller tests', 'grid/grid.cpp open/initContainers, grid/level/*.h open, transfer/*.h init')],
 'C03': [('broadcasts of the domain master are reached by all threads of a domain', 'numa/numacomm.h allocate/broadcast, grid/grid.cpp open')],
 'C04': [('rounding and clamping', 'grid/level/level.h pos2index'), ('reversed dimension order', 'grid/level/level.h min/max/delta')],
 'C05': [('home mapping and its inverse', 'grid/level/blocked.h blockRank/blockDomain/blockOffset/local2global'), ('loading loop', 'grid/level/full.h open')],
 'C06': [('mixed radix numbering of blocks and elements', 'grid/level/blocked.h blockByCoords/calcBlockPosition/calcOffsetInBlock/open')],
 'C07': [('slot mutex taken by get/tryGet, released by unlock', 'cache/cachemanager.h')],
 'C08': [('fill before convert', 'grid/level/cache.h, fulldist.h, cachedist.h getAt')],
 'C09': [('delete old entry, fetch, publish', 'grid/level/cachedist.h getAt, transfer/mpiwincache.h, transfer/mpithreadcache.h')],
 'C10': [('block to slot map and slot to block array updated together', 'cache/cachelist.h getFreeIndex'), ('two-hand clock', 'cache/lru.h')],
 'C11': [('scoped locks and fixed nesting', 'cache/cachemanager.h, transfer/numacache.h, mpi/mpicomm.h')],
 'C12': [('MPI_Win_lock/unlock around every access', 'transfer/mpiwinfull.h, transfer/mpiwincache.h, mpi/mutex.h')],
 'C13': [('global MPI lock', 'mpi/mpicomm.h mpiLock')],
 'C14': [('reserved tags per level', 'mpi/mpicomm.h reserveTags, transfer/mpithreadcache.h, transfer/mpithreadfull.h')],
 'C15': [('communication thread state machine', 'mpi/commthread.h init/finialize/commThreadHandler')],
 'C16': [('global netCDF lock', 'io/netcdfreader.h netcdfLock'), ('close on error and in the destructor', 'io/netcdfreader.cpp')],
 'C17': [('clipping and stride computation', 'io/netcdfreader.h getBlock/getVar')],
 'C18': [('owner releases in its destructor', 'grid/level/*.h, transfer/*.h, types/*.h, numa/numacomm.h')],
 'C19': [('mutex and condition variable with round counter', 'threads/sync.h')],
 'C20': [('double-checked once flag', 'threads/once.h'), ('type set-up under a lock', 'types/arraytype.h, types/structtype.h')],
 'C21': [('counter increments on the query paths', 'grid/level/*.h getAt'), ('derived counters', 'perf/counter.h get')],
 'C22': [('type list and per-type conversion', 'types/basictype.h, grid/grid.cpp')],
 'C23': [('selection tables', 'grid/grid.cpp initContainers/open/setParam/param')],
 'C24': [('lock per shared structure', 'mpi/commthread.h, fortran/pointerarray.h, mpi/mpicomm.h, cache/cachemanager.h')],
 'C25': [('move-to-front list per block', 'transfer/mpicache.h updateBlockInfo/deleteBlockInfo/fetchBlockInfo')],
 'C26': [('flag array in an MPI window plus hand-over message', 'mpi/mutex.h')],
 'C27': [('registration under a lock with thread-local ids', 'numa/numa.cpp registerThread')],
 'C28': [('dimension and level limits checked at open', 'io/netcdfreader.cpp open, grid/grid.cpp')],
 'C33': [('color from the hash of the host name, compare full names', 'asagi.cpp (nodeLocalRank)')],
 'C29': [('address computation of block copies', 'transfer/numafull.h, numacache.h, numafullcache.h, mpiwinfull.h, mpithreadfull.h')],
 'C30': [('all storage methods share position and block arithmetic', 'grid/level/blocked.h')],
 'C31': [('retry and hand-over protocols', 'grid/level/cachedist.h, mpi/mutex.h')],
 'C32': [('two-hand clock', 'cache/lru.h')],
}
def p(id, title, statement, over, qtext, why, files, functions=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in M[id]]))
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'C, C++ and Fortran interfaces describe the same library',
  'Every type code and error code has the same numeric value in the C++, C and Fortran interfaces. Every C or Fortran entry point performs exactly the grid operation it is named after, on the grid it was given, with all of its arguments passed on unchanged and in order, and hands back that operation\'s result.',
  ['inputs', 'programs'], 'all entry points, all argument values, programs in any of the three languages',
  'The unit tests call C++ classes directly and never the C or Fortran wrappers; agreement of three hand-written declarations is a table property over all entry points.',
  ['include/asagi.h', 'include/asagi.f90', 'asagi.cpp', 'asagi_f90.cpp', 'asagi_f90.h'])

p('C02', 'Errors found while opening a grid reach the caller',
  'Whenever any step of opening a grid level fails with an error code (thread registration, file, variable, type, memory, MPI or directory setup), the open call of at least the detecting thread\'s caller returns an error code, never success, and no step after the failed one is carried out as if it had succeeded.',
  ['inputs', 'fault_sequences'], 'every failing step of an open or initialisation, on every path to a return',
  'Faults of allocation, MPI and netCDF cannot be provoked by the unit tests; the property is about every error-producing call site on every path.',
  ['grid/grid.cpp', 'grid/simplecontainer.h', 'grid/level/*.h', 'transfer/*.h', 'types/*.h', 'numa/numacomm.h', 'allocator/*.h'])

p('C03', 'A failing open never leaves the other threads of the process waiting',
  'When opening a grid with several threads, every thread takes part in the same sequence of cross-thread broadcasts and barriers no matter which steps fail on which NUMA domain. A failure on one domain therefore makes the open calls return errors; it never leaves other threads blocked.',
  ['fault_sequences', 'schedules'], 'every combination of local failures and thread roles',
  'Needs a fault on one domain and several NUMA domains; the unit tests run the communication classes without faults.',
  ['numa/numacomm.h', 'numa/numa.h', 'transfer/*.h', 'grid/grid.cpp'])

p('C04', 'Any coordinate is mapped to the nearest valid cell',
  'For every position passed to a value query, each coordinate is converted to the nearest grid index of its own dimension (offset and spacing of that dimension, round half up) and clamped to the first or last index when outside; a dimension without spacing always maps to index 0. The dimension order of the position is the file order while internal indices use the reversed storage order, consistently for queries and for the reported minimum, maximum and spacing.',
  ['inputs'], 'all coordinates representable as finite doubles or infinities, all grids with 1..MAX_DIMENSIONS dimensions',
  'No unit test compiles the level code; the mapping has to hold for all real coordinates and dimension counts.',
  ['grid/level/level.h', 'grid/simplecontainer.h'])

p('C05', 'Every block has exactly one home and loader and reader agree on it',
  'For any grid size, number of ranks and NUMA domains, each block number maps to exactly one (rank, domain, slot) home with the rank, domain and slot inside their valid ranges, and a domain that enumerates its slots when loading obtains exactly the block numbers whose home it is. The slot within the whole node equals the slot within the domain plus the domain number times the slots per domain. This holds for both supported distribution schemes.',
  ['inputs', 'configurations'], 'all block counts, rank counts, domain counts, both distribution options',
  'Requires multi-rank, multi-domain runs over all sizes; no unit test instantiates the level classes.',
  ['grid/level/blocked.h'], ['blockRank', 'blockDomain', 'blockOffset', 'blockNodeOffset', 'local2global', 'localBlockCount'])

p('C06', 'Block numbering and in-block addressing are mutually consistent',
  'The block that contains an index, the position of a block in the block grid, the first index of a block and the offset of an index inside its block all follow one ordering, so that the element returned for an index is the element read from the file for that index. Block sizes are at least 1 and at most the dimension size, the number of blocks per dimension covers the dimension exactly, and user-given block sizes (including the default, the maximum and the time-dimension rule) are applied to the dimension they name.',
  ['inputs'], 'all indices, all block sizes, all dimension counts 1..MAX_DIMENSIONS',
  'A sampled test reaches few shapes; consistency of four index formulas is needed for all sizes and dimension counts.',
  ['grid/level/blocked.h', 'grid/level/full.h', 'grid/level/cache.h', 'io/netcdfreader.h'])

p('C07', 'A cached block is only used while locked and is unlocked exactly once',
  'Whenever a query or a remote request uses the memory of a cache slot, the slot (or, for a one-sided transfer from another rank, its directory entry) is locked for the whole time from the look-up to the last access and is then unlocked exactly once on every path. Nothing reads or fills a cache slot it does not hold.',
  ['schedules', 'inputs'], 'all paths through queries and remote block requests, all interleavings of threads',
  'The cache unit tests are single threaded and never follow the query path that holds the lock.',
  ['grid/level/cache.h', 'grid/level/fulldist.h', 'grid/level/cachedist.h', 'transfer/numacache.h', 'transfer/numafullcache.h', 'transfer/mpithreadcache.h', 'cache/cachemanager.h'])

p('C08', 'A block is never returned before it has been filled',
  'If a requested block is not in the cache, it is completely obtained (from another NUMA domain, another rank or the file) into the slot before any value is read from the slot; if it is in the cache, it is not fetched again. A transfer that reports failure is always followed by another source or by reading the file.',
  ['inputs', 'histories', 'schedules'], 'all query paths over all outcomes of the transfer steps',
  'The combinations of cache miss, transfer success, failure and retry depend on timing between ranks; no test reaches them.',
  ['grid/level/cache.h', 'grid/level/fulldist.h', 'grid/level/cachedist.h'])

p('C09', 'Replacing a cached block keeps the distributed directory truthful',
  'When a cached block is replaced, its directory entry is removed before the new block is fetched; the new block becomes visible in the directory only for the slot that holds it and only once its data is complete, or while remote readers are still excluded from it. Each directory access names the block\'s own home rank and slot and the local rank\'s own cache position.',
  ['histories', 'schedules'], 'all replacement histories and interleavings of ranks',
  'Needs several ranks with replacement under contention; not reachable by the unit tests.',
  ['grid/level/cachedist.h', 'transfer/mpiwincache.h', 'transfer/mpithreadcache.h', 'transfer/mpicache.h'])

p('C10', 'The cache index stays a one-to-one map between blocks and slots',
  'At all times each cached block is found in exactly one slot and each occupied slot is found under exactly the block it holds; looking up a block that is cached returns its slot without replacing anything, and replacing a slot removes the old block from the index before the new one is entered. The eviction search always returns a slot number smaller than the cache size, for any cache size and hand spread.',
  ['histories', 'inputs'], 'all access histories, all cache sizes >= 1, all hand spreads',
  'The cache unit test samples a few accesses with one size; index consistency and slot bounds must hold for all histories and configuration values.',
  ['cache/cachelist.h', 'cache/lru.h', 'cache/cachemanager.h'])

p('C11', 'Locks are acquired in one order and every lock is released',
  'Every mutex acquired by the library is released exactly once on every path, no thread acquires a non-recursive mutex it already holds, and the order in which different mutexes are nested is acyclic; where a thread holding a cache slot probes other caches, it only tries the other slots\' locks and never waits for them. Hence no set of concurrent queries can deadlock inside the process.',
  ['schedules'], 'all interleavings of any number of query, open and communication threads',
  'Deadlocks depend on interleavings; tests exercise single threads.',
  ['cache/cachemanager.h', 'transfer/*.h', 'mpi/*.h', 'numa/*.h', 'threads/*.h', 'fortran/pointerarray.h', 'types/*.h', 'io/netcdfreader.h'])

p('C12', 'One-sided MPI access happens only inside a matching window lock',
  'Every remote get, put, accumulate or flush on a window is issued while the same window is locked for the same target rank, remotely written results are used only after the access has been completed, and every window lock is released on every path before the operation returns (or at the end of the documented transfer bracket). Windows are created over the memory and displacement unit that the readers use to compute target offsets.',
  ['inputs', 'schedules'], 'all paths of the window based transfers, all ranks and offsets',
  'Needs multi-rank MPI-3 runs; a missing epoch often works by luck on one node.',
  ['transfer/mpiwinfull.h', 'transfer/mpiwincache.h', 'mpi/mutex.h'])

p('C13', 'With the MPI-serialisation option only one thread is ever inside MPI',
  'When the library is built for MPI implementations that are not thread-safe, every MPI call made by opening, querying or destroying grids is issued with the process-wide MPI lock held, and that lock is held without interruption for the whole of a bracketed window transfer.',
  ['schedules', 'configurations'], 'all call sites of MPI functions, all thread interleavings, builds with the option',
  'MPI races are schedule dependent and the unit tests use one thread per process.',
  ['mpi/mpicomm.h', 'mpi/mpicomm.cpp', 'mpi/mutex.h', 'transfer/*.h', 'types/arraytype.h', 'types/structtype.h', 'allocator/mpialloc.h'])

p('C14', 'Requests and replies of the communication thread always match',
  'For every message exchanged through the communication thread, sender and receiver agree on tag, element type, element count, peer and communicator; each request produces exactly one reply on every path (a block or an explicit failure), and the requester waits for exactly that reply. Tags of different levels and of different request kinds never coincide.',
  ['inputs', 'histories', 'schedules'], 'all request kinds, levels, and outcomes at the responder',
  'Needs several ranks and concurrent levels; no test starts the communication thread with data.',
  ['transfer/mpithreadcache.h', 'transfer/mpithreadfull.h', 'mpi/commthread.h', 'mpi/mpicomm.h'])

p('C15', 'The communication thread starts once, serves only while registered, and stops',
  'The communication thread is started at most once at a time and only by an explicit start, reports an error for every operation that needs it while it is not running, keeps serving until its own process tells it to stop, and is joined on stop. A receiver is only called for messages of its own registration, is registered only once the data it serves is complete, may be removed only after all processes have finished using it, and is unregistered before the data it serves is destroyed.',
  ['schedules', 'histories'], 'all sequences of start, stop, register and unregister calls, all arrival orders',
  'The comm-thread test covers one start/stop order; arrival orders and teardown races are schedules.',
  ['mpi/commthread.h', 'mpi/commthread.cpp', 'transfer/mpithreadcache.h', 'transfer/mpithreadfull.h', 'asagi.cpp'])

p('C16', 'File access is serialised and the file handle is closed on every path',
  'Every netCDF library call of the process is made with one common lock held, because the netCDF library is not thread-safe. Once a file has been opened, each path closes it exactly once (at the latest when the reader is destroyed), also when the requested variable does not exist; every request reads inside the variable and the given buffer.',
  ['schedules', 'fault_sequences', 'inputs'], 'all concurrent readers, all open failures',
  'Concurrent readers and failing opens are not exercised; netCDF races are schedule dependent.',
  ['io/netcdfreader.h', 'io/netcdfreader.cpp'])

p('C17', 'Reading a block fills exactly the in-range part, with the right strides',
  'Reading a block at any position reads in every dimension exactly min(block size, dimension size - start) elements, starting at the requested index, and stores them at the location that the in-block addressing assigns to them; nothing outside the block buffer is written. Per-dimension size, offset and spacing are those of the dimension itself (coordinate variable if present, otherwise index coordinates).',
  ['inputs'], 'all block positions incl. boundary blocks, all dimension counts, element types and sizes',
  'The netCDF reader is not compiled by the test build; boundary blocks exist for most shapes only.',
  ['io/netcdfreader.h', 'io/netcdfreader.cpp'])

p('C18', 'Memory and MPI objects are released exactly once, by their owner, in order',
  'Every block of memory, window, MPI type, communicator, group and registration obtained by the library is released exactly once with the release operation that matches how it was obtained, by the domain that owns it, and not before the objects that still refer to it. Opening further levels or destroying a partly opened grid never releases or copies the storage of other levels.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of opening levels, failing opens and destroying the grid',
  'Ownership errors surface only for multi-level, multi-domain or failing opens that tests do not perform.',
  ['grid/simplecontainer.h', 'grid/level/*.h', 'transfer/*.h', 'allocator/*.h', 'numa/numacomm.h', 'types/*.h', 'mpi/*.h'])

p('C19', 'Thread barriers and broadcasts are safe for any schedule',
  'No participant leaves a barrier before the last one has entered it, a broadcast delivers the root\'s value to every participant of that round only, consecutive rounds never mix, and waiting tolerates spurious wake-ups. A failing lock or wait is reported to the caller and leaves no lock held.',
  ['schedules', 'fault_sequences'], 'all interleavings of any number of participants and rounds',
  'The unit tests run a few rounds under the OS scheduler; interleavings and wake-ups cannot be sampled meaningfully.',
  ['threads/sync.h', 'numa/numacomm.h', 'numa/numa.h'])

p('C20', 'One-time initialisation runs exactly once and is complete for everyone',
  'An initialisation guarded by the once mechanism is executed exactly once, no thread returns from the guard before that execution has finished, and its effects are visible to every thread that returns. Shared element types are published only after the corresponding MPI type is complete.',
  ['schedules'], 'all interleavings of any number of threads',
  'Memory visibility and double execution depend on schedules a test does not control.',
  ['threads/once.h', 'types/arraytype.h', 'types/structtype.h'])

p('C21', 'Access counters count what happened',
  'Each value query counts exactly one access; each query that has to fetch a block counts exactly one fetch under the source that supplied it (other NUMA domain, other rank, file) and a query answered from local memory or the cache counts none. The named counters (including the derived hit, miss and local counts) return the documented combination of these, summed over all NUMA domains, for the requested level.',
  ['inputs', 'histories'], 'all query paths, all counter names, all levels',
  'The counter formulas and increments per path are not covered by a unit test.',
  ['perf/counter.h', 'perf/counter.cpp', 'grid/level/*.h', 'grid/grid.cpp', 'grid/simplecontainer.h'])

p('C22', 'Element types agree across C, MPI and netCDF',
  'For every supported element type, the element size, the MPI datatype used in transfers, the netCDF read call and the conversion to the query type all refer to the same C type; arrays use the length of the stored elements and structures use exactly the user\'s block lengths, displacements and member types. Every declared type code creates the matching implementation and every implementation is known to the container selection.',
  ['inputs', 'programs'], 'all element types, array lengths and structure descriptions',
  'Tests use one or two element types; the table must agree for all of them.',
  ['types/*.h', 'types/structtype.cpp', 'io/netcdfreader.h', 'grid/grid.cpp'])

p('C23', 'Grid parameters select the documented behaviour',
  'For every combination of the grid, MPI and NUMA parameters, numbers of ranks and NUMA domains and build options, opening creates for every NUMA domain the documented combination of storage and transfer method, with unknown values falling back to the documented default and never leaving a domain without storage. Parameter names and option values are case-insensitive and accept dash for underscore, while variable names and numbers are kept as given; each parameter is read for the level being opened with its documented default.',
  ['inputs', 'configurations'], 'all parameter values, levels, rank and domain counts, build options',
  'The selection is a decision table of dozens of combinations over configurations, of which tests run one.',
  ['grid/grid.cpp', 'grid/level/*.h', 'documentation/user/02_usage.h'])

p('C24', 'Shared state is only touched under its lock',
  'Every piece of mutable state that is shared between threads (receiver table, grid handle table, tag counter, reference counts, barrier state, cache index, directory entries, thread registration, element type setup) is read and written only with the lock that protects it held, or is atomic, or is written only before other threads can reach it.',
  ['schedules'], 'all interleavings of query, open, close and communication threads',
  'Data races are schedule dependent and invisible to single-threaded unit tests.',
  ['mpi/commthread.h', 'fortran/pointerarray.h', 'mpi/mpicomm.h', 'threads/sync.h', 'cache/cachemanager.h', 'transfer/*.h', 'numa/*.h', 'types/*.h'])

p('C25', 'The distributed block directory never loses or invents entries',
  'Adding a cache position to a block\'s directory list stores it exactly once among the most recent entries, removing a position removes that position only and keeps the order of the others, and a lookup returns a stored position or reports that there is none. All directory accesses stay inside the list and the table.',
  ['histories', 'inputs'], 'all sequences of additions, removals and lookups, all list lengths',
  'The directory code is compiled by no test of this build.',
  ['transfer/mpicache.h', 'transfer/mpiwincache.h', 'transfer/mpithreadcache.h'])

p('C26', 'The distributed mutex is exclusive and hands over to exactly one waiter',
  'A rank enters the distributed mutex only if no other rank\'s flag is set, otherwise only after a hand-over message for that mutex; on release the flag is cleared and, if others wait, exactly one of them is notified with that mutex\'s own tag. Flags of different mutexes never overlap.',
  ['schedules'], 'all interleavings of acquiring and releasing ranks, any number of mutexes',
  'The mutex test samples some interleavings; it needs several ranks which the sandbox build does not run.',
  ['mpi/mutex.h'])

p('C27', 'Each thread is assigned to the right NUMA domain and one master per domain',
  'Every registered thread obtains a distinct thread number below the number of threads and a domain number below the number of domains, both are what later queries from that thread use, and exactly one thread per domain becomes the one that performs the domain\'s initialisation. Failing thread-local storage is reported as an error.',
  ['schedules', 'configurations', 'inputs'], 'all thread counts, CPU layouts and registration orders',
  'Thread placement depends on the machine and schedule; tests run on one layout.',
  ['numa/numa.cpp', 'numa/numa.h', 'numa/nonuma.h', 'grid/grid.cpp'])

p('C28', 'Indices into fixed-size arrays and per-thread buffers stay in range',
  'No dimension index, level number, thread number, domain number or type index used by the library leaves the array it indexes, for every file, parameter and thread configuration that opening accepts; files with more dimensions than supported are rejected with an error before any per-dimension data is stored.',
  ['inputs', 'configurations'], 'all files, parameters and thread configurations accepted by open',
  'Only out-of-range inputs trigger it, and the code is not compiled by the test build.',
  ['io/netcdfreader.h', 'grid/level/*.h', 'grid/container.h', 'numa/*.h', 'types/*.h'])

p('C29', 'Data from other NUMA domains and ranks is copied whole and from the right place',
  'When a block is supplied by another NUMA domain or rank, exactly one whole block is copied, from the location that the home mapping (or the cache position found) assigns to that block, into the slot of the requester. A NUMA transfer reports success only if it copied the block and only for blocks on the same rank.',
  ['inputs', 'schedules'], 'all blocks, ranks, domains and cache positions',
  'Needs several domains or ranks with data; address arithmetic must hold for all sizes.',
  ['transfer/numafull.h', 'transfer/numacache.h', 'transfer/numafullcache.h', 'transfer/mpiwinfull.h', 'transfer/mpithreadfull.h', 'transfer/mpiwincache.h', 'transfer/mpithreadcache.h'])

p('C30', 'Values read through different storage methods are identical',
  'The value returned for a position is bit-identical for every storage and transfer method and every distribution over ranks and domains.',
  ['inputs', 'histories', 'configurations'], 'all files, positions and configurations', 
  'Equality of numerical results over all configurations cannot be sampled exhaustively.',
  ['grid/level/*.h', 'transfer/*.h'])

p('C31', 'Every remote request is eventually answered',
  'Every query that needs a remote block returns after finite time as long as all processes keep running, including under contention for the same directory entry.',
  ['schedules'], 'all fair schedules of all ranks', 'Liveness over unbounded schedules.',
  ['mpi/mutex.h', 'mpi/commthread.h', 'transfer/*.h'])

p('C32', 'The replacement policy keeps recently used blocks',
  'A block that is accessed at least once per hand revolution is not evicted, and hit rates are not worse than FIFO.',
  ['histories'], 'all access histories', 'A statement about access histories and hit rates.',
  ['cache/lru.h', 'cache/cachelist.h'])

p('C33', 'Node-local ranks are right on every machine',
  'nodeLocalRank succeeds for every host name and communicator size and returns the number of processes of the communicator with a smaller rank that run on the same host, so that the processes of one host obtain 0, 1, 2, ... exactly once each; processes of other hosts never count, even if their host names have the same hash.',
  ['inputs', 'configurations'], 'all host names, communicators and placements of processes on hosts',
  'The result depends on the host names of a cluster; a test machine has one (short) host name.',
  ['asagi.cpp'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
