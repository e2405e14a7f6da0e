"""Event sequences of the transfer classes and of everything that talks to MPI.

Events: ('lock', loc) ('unlock', loc) ('memcpy', dst, src, n) ('MPI', name, args) ('send', tag, rank, data)
('register'|'unregister', args) ('tryget', mgr, blk, k) ('cunlock', mgr, slot) ('mutex', op, args) ('bcast', loc, root) ...
"""
from .locks import *

P2P = ('MPI_Send', 'MPI_Ssend', 'MPI_Isend', 'MPI_Issend', 'MPI_Recv', 'MPI_Irecv', 'MPI_Wait', 'MPI_Test', 'MPI_Iprobe', 'MPI_Probe',
       'MPI_Get', 'MPI_Put', 'MPI_Accumulate', 'MPI_Win_lock', 'MPI_Win_unlock', 'MPI_Win_flush', 'MPI_Win_flush_local')
OUT_MPI = {'MPI_Recv': 0, 'MPI_Get': 0}

class XferClient(LockClient):
    """stop: qualified-name prefixes that are treated as operations of the alphabet"""
    def __init__(self, prog, hooks=None, inline=None, comm=True, mutex=True, bcast=True, cache=True):
        LockClient.__init__(self, prog, hooks, inline)
        self.o_comm, self.o_mutex, self.o_bcast, self.o_cache = comm, mutex, bcast, cache
    def on_lock(self, eng, st, fr, node, loc, how): self.emit(st, ('lock', loc, how))
    def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        p = name.split('::'); sn = p[-1]
        if name.startswith(('MPI_', 'PMPI_')):
            a = tuple(ld(x) for x in args)
            r = self.mpi(eng, st, fr, node, name, a)
            if r is not None: return r
            if name in ('MPI_Test', 'MPI_Iprobe'):
                rv = eng.do_opaque(st, fr, node, name, obj, list(a))
                eng.flags.add(Engine.deref(a[1] if name == 'MPI_Test' else a[3]))
                if name == 'MPI_Iprobe' and a[4][0] == '&':
                    for f in ('MPI_TAG', 'MPI_SOURCE'): eng.flags.add(('f', a[4][1], f))
                st.sym = st.sym | frozenset(st.loops)    # the number of polls is unknown
                out = []
                for done in (True, False):
                    s = st.copy() if done else st
                    fl = Engine.deref(a[1] if name == 'MPI_Test' else a[3])
                    eng.write(s, fl, ONE if done else ZERO)
                    self.emit(s, ('MPI', name, a, done))
                    if name == 'MPI_Iprobe' and done and a[4][0] == '&':
                        eng.write(s, ('f', a[4][1], 'MPI_TAG'), a[1]); eng.write(s, ('f', a[4][1], 'MPI_SOURCE'), a[0])
                    s.path = (s.path, (fr.fn['file'], node.get('l'), name + (' succeeds' if done else ' finds nothing')))
                    out.append((s, ZERO))
                return out
            self.emit(st, ('MPI', name, a))
            rv = eng.do_opaque(st, fr, node, name, obj, list(a))
            # the library only asserts that communication calls succeed; their failure is not a path of the analysis
            return [(st, ZERO if name in P2P else rv)]
        if name in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            self.emit(st, ('memcpy',) + tuple(ld(x) for x in args)); return [(st, ld(args[0]))]
        if self.o_comm and name.startswith('mpi::CommThread::') and sn in ('send', 'registerReceiver', 'unregisterReceiver'):
            a = tuple(x[1] if x is not None and x[0] in ('L', 'obj') and sn == 'registerReceiver' and i > 0 else ld(x) for i, x in enumerate(args))
            self.emit(st, ({'send': 'send', 'registerReceiver': 'register', 'unregisterReceiver': 'unregister'}[sn],) + a)
            if sn == 'registerReceiver':
                self.havoc_out(eng, st, fr, node, args)
                return self.errfork(eng, st, fr, node, name)
            return [(st, ZERO)]
        if self.o_mutex and name.startswith('mpi::Mutex::') and sn in ('acquire', 'wait', 'release', 'init', 'initMutexMem'):
            a = tuple((('loc', eng.canon(st, x[1])) if x is not None and x[0] in ('L', 'obj') and sn in ('init', 'initMutexMem') else ld(x)) for x in args)
            self.emit(st, ('mutex', sn) + a)
            if sn == 'acquire':
                site = (fr.fid, node.get('i')); n = eng.count(st, site)
                return [(st, ('r', site, n, 'acquire'))]
            return [(st, ZERO)]
        if self.o_cache and name.startswith('cache::CacheManager::'):
            if sn in ('get', 'tryGet'):
                k = sum(1 for e in self.evs(st) if e[0] in ('tryget', 'get'))
                if k > 3: return []
                blk = ld(args[0]); slot = ('op', 'slot', C(k)); data = ('op', 'slotdata', C(k))
                if obj is not None and obj[0] == 'd':    # called through this pointer
                    eng.assume(st, cmp('!=', eng.addr(obj), ZERO), True)
                s2 = st.copy()
                if sn == 'tryGet':
                    s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'tryGet fails'))
                    self.emit(s2, ('trymiss', obj, blk))
                for a, v in ((args[1], slot), (args[2], data)):
                    if a is None or a[0] not in ('L', 'obj'): raise AnalysisBroken('CacheManager::%s: unexpected argument' % sn)
                    eng.write(st, eng.canon(st, a[1]), v)
                self.emit(st, ('tryget' if sn == 'tryGet' else 'get', obj, blk, k))
                st.path = (st.path, (fr.fn['file'], node.get('l'), sn + ' returns a locked slot'))
                if sn == 'tryGet': return [(st, ONE), (s2, ZERO)]
                return [(st, ('op', 'oldblock', C(k)))]
            if sn == 'unlock':
                self.emit(st, ('cunlock', obj, ld(args[0]))); return [(st, ZERO)]
            if sn == 'init':
                self.emit(st, ('cinit',) + tuple(ld(x) for x in args)); return [(st, ZERO)]
        if self.o_bcast and is_agree(self.p, fr, node, name):
            a = ld(args[0])
            self.emit(st, ('agree', a))
            return agree_contract(eng, st, fr, node, a)
        if self.o_bcast and sn == 'broadcast' and p[0] == 'numa':
            a = args[0]
            self.emit(st, ('bcast', eng.canon(st, a[1]) if a[0] in ('L', 'obj') else a, ld(args[1]) if len(args) > 1 else ZERO))
            return self.errfork(eng, st, fr, node, name)
        if name.startswith('numa::') and sn in ('domainId', 'totalDomains', 'totalThreads', 'threadId') and sn not in self.hooks:
            return [(st, self.hooks.get('numa.' + sn, S(sn)))]
        if name.startswith('mpi::') and sn in ('rank', 'size') and not args: return [(st, S('mpi' + sn))]
        return None
    def mpi(self, eng, st, fr, node, name, a): return None
    def havoc_out(self, eng, st, fr, node, args):
        for x in args[1:]:
            if x is not None and x[0] == 'L':
                site = (fr.fid, node.get('i'))
                l = eng.canon(st, x[1])
                if l[0] == 'f' or l[0] == 'v':
                    if not any(under(k, l) for k in st.store): eng.write(st, l, ('o', site, 0, repr(l)[-40:]))
    def errfork(self, eng, st, fr, node, name):
        s2 = st.copy()
        s2.path = (s2.path, (fr.fn['file'], node.get('l'), name.split('::')[-1] + ' fails'))
        err = S('error of ' + name.split('::')[-1])
        eng.assume(s2, cmp('!=', err, ZERO), True)
        return [(st, ZERO), (s2, err)]

def paths(prog, fn, rep=None, store=None, args=None, client=None, budget=300000):
    """[(events, held, state, return value)] of a function"""
    c = client or XferClient(prog)
    res, e = summary(prog, fn, store=store, args=args, client=c, budget=budget)
    if rep is not None: rep.engine(prog, e)
    out = []
    for s, v in res:
        out.append((LockClient.evs(s), LockClient.held(s), s, e.load(s, v) if v is not None else None))
    return out

def pname(fn, i): return fn['params'][i]['n']
def P(fn, i): return ('i', ('p', fn['params'][i]['n'] or 'arg%d' % i))

def ptr(v):
    """(base value, offset) of a pointer value"""
    if v is None: return None, None
    l = Engine.deref(v)
    if l[0] == 'e' and l[1][0] == 'd': return l[1][1], l[2]
    if l[0] == 'e': return ('&', l[1]), l[2]
    if l[0] == 'd': return l[1], ZERO
    return v, ZERO

def after_init(prog, cls, rep, pick=lambda fn: True, store=None):
    """store of an object after each successful init path: [(init fn, state, events)]"""
    out = []
    for fn in prog.fns(cls + '::init', required=False):
        if not pick(fn): continue
        for ev, held, s, v in paths(prog, fn, rep, store=store):
            if v == ZERO: out.append((fn, s, ev))
    return out

class InitClient(XferClient):
    """initialisation of a transfer class: the element type, communicator and allocators are symbols"""
    def special(self, eng, st, fr, node, name, obj, args):
        p = name.split('::'); sn = p[-1]
        if name.startswith('types::') and sn == 'size' and not args: return [(st, S('typeSize'))]
        if name.startswith('types::') and sn == 'getMPIType' and not args: return [(st, S('mpiType'))]
        if name.startswith('mpi::') and sn == 'comm' and not args: return [(st, S('comm'))]
        if name.startswith('mpi::') and sn == 'reserveTags':
            n = eng.load(st, args[0]); k = sum(1 for e in self.evs(st) if e[0] == 'tags')
            self.emit(st, ('tags', n, k)); return [(st, ('op', 'tags', C(k)))]
        if name.startswith('allocator::') and sn == 'allocate':
            l = eng.canon(st, args[1][1]); k = sum(1 for e in self.evs(st) if e[0] == 'alloc')
            n = eng.load(st, args[0])
            self.emit(st, ('alloc', p[1], l, n)); s2 = st.copy()
            eng.write(st, l, ('op', 'memory', C(k)))
            s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'allocation fails'))
            eng.assume(s2, cmp('!=', S('error of allocate'), ZERO), True)
            return [(st, ZERO), (s2, S('error of allocate'))]
        if name.startswith('allocator::') and sn == 'free':
            self.emit(st, ('free', p[1], eng.load(st, args[0]))); return [(st, ZERO)]
        return XferClient.special(self, eng, st, fr, node, name, obj, args)

class OpenClient(InitClient):
    """opening of a storage class: transfer initialisation, reader operations and index helpers are the alphabet"""
    def __init__(self, prog, base=True, **k):
        InitClient.__init__(self, prog, **k); self.base = base
    def special(self, eng, st, fr, node, name, obj, args):
        p = name.split('::'); sn = p[-1]
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name.startswith('transfer::') and sn == 'init':
            a = tuple((('loc', eng.canon(st, x[1])) if x is not None and x[0] in ('L', 'obj') and x[1] is not None and not self.scalar(eng, st, x) else ld(x)) for x in args)
            self.emit(st, ('tinit', p[-2]) + a)
            return self.errfork(eng, st, fr, node, p[-2] + ' init')
        if name == 'cache::CacheManager::init':
            self.emit(st, ('cinit', obj) + tuple(ld(x) for x in args)); return [(st, ZERO)]
        if name.startswith('numa::') and sn == 'allocate':
            l = eng.canon(st, args[1][1]); k = sum(1 for e in self.evs(st) if e[0] == 'alloc')
            self.emit(st, ('alloc', 'numa', l, ld(args[0])))
            s2 = st.copy(); eng.write(st, l, ('op', 'memory', C(k)))
            s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'allocation fails'))
            eng.assume(s2, cmp('!=', S('error of allocate'), ZERO), True)
            return [(st, ZERO), (s2, S('error of allocate'))]
        if self.base and name.startswith('grid::level::') and sn == 'open' and '::'.join(p[:-1]) != fr.fn['cls'] :
            self.emit(st, ('open', p[-2]) + tuple(ld(x) for x in args))
            return self.errfork(eng, st, fr, node, p[-2] + '::open')
        if name.startswith('io::') and name != fr.fn['n']:
            self.emit(st, ('io', sn) + tuple(ld(x) for x in args))
            if sn == 'open': return self.errfork(eng, st, fr, node, 'file open')
            if sn in ('getBlock',): return [(st, ZERO)]
            site = (fr.fid, node.get('i'))
            return [(st, eng.do_opaque(st, fr, node, name, obj, [ld(x) for x in args]))]
        if name.startswith('types::') and sn == 'load':
            self.emit(st, ('load', ld(args[1]), ld(args[2]), ld(args[3]))); return [(st, ZERO)]
        if name.startswith('types::') and sn == 'check':
            self.emit(st, ('check',)); return self.errfork(eng, st, fr, node, 'check')
        k = {'localBlockCount': 'localBlockCount', 'totalBlockCount': 'totalBlockCount', 'totalBlockSize': 'blockSize', 'typeSize': 'typeSize', 'nodeBlockCount': 'nodeBlockCount'}.get(sn)
        if k and name.startswith('grid::level::') and not args: return [(st, S(k))]
        return InitClient.special(self, eng, st, fr, node, name, obj, args)
    def scalar(self, eng, st, x):
        return False
