// What do calls through the public C++ interface mean when the optional arguments are left out?
#include "asagi.h"

namespace witness
{

typedef asagi::Grid G;

G* create() { return G::create(); }
G* createArray() { return G::createArray(); }
#ifndef ASAGI_NOMPI
void setComm(G* g) { g->setComm(); }
void startCommThread() { G::startCommThread(); }
int nodeLocalRank() { return G::nodeLocalRank(); }
#endif
void setParam(G* g, const char* n, const char* v) { g->setParam(n, v); }
G::Error open(G* g, const char* f) { return g->open(f); }
double getDelta(G* g, unsigned int n) { return g->getDelta(n); }
unsigned char getByte(G* g, const double* p) { return g->getByte(p); }
int getInt(G* g, const double* p) { return g->getInt(p); }
long getLong(G* g, const double* p) { return g->getLong(p); }
float getFloat(G* g, const double* p) { return g->getFloat(p); }
double getDouble(G* g, const double* p) { return g->getDouble(p); }
void getBuf(G* g, void* b, const double* p) { g->getBuf(b, p); }
unsigned long getCounter(G* g, const char* n) { return g->getCounter(n); }
void close(G* g) { G::close(g); }

}
