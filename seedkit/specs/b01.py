ID='b01-domain'; PROPERTY='C05'
NEEDS='a distributed full grid with more than one rank and more than one NUMA domain per rank'
BREAKS='The NUMA domain of a block is computed from the block number itself, although the number of ranks divides it too: blocks are looked up where another block is stored.'
EDITS=[('grid/level/blocked.h','return (id / this->comm().size()) % this->numa().totalDomains();','return id % this->numa().totalDomains();')]
DEMO='''
build driver.cpp -DTHREADSAFE -DUSE_MPI3 -DROUND_ROBIN -DDEBUG_NUMA=1
run 2 2 grid=full mpi_communication=thread block_size_0=3 block_size_1=2
'''
