"""Event sequences of a value query (getAt of every storage class).

The public operations of the cache manager, the transfer classes, the element type and
the counters are the alphabet; everything else of the level classes is inlined.
Every path of a query yields a sequence of events:
 ('get', blk, slot, data, hit) ('unlock', slot) ('numa', args, ok) ('mpi', args, ok, retry)
 ('mpifull', args) ('start'|'end'|'add'|'del', args) ('load', start, size, dst) ('convert', src, dst) ('inc', k)
"""
from .rules.base import *

L = 'grid::level::'

class QueryClient(Summ):
    def __init__(self, prog):
        Summ.__init__(self, {})
        self.p = prog
        self._inl = lambda f, n: n.startswith('grid::level::') or n.startswith('perf::') is False
        self.ptrs = set()
    def ev(self, st, e):
        ts = (st.ts or ()) + (e,)
        # a retry round that equals the previous one adds nothing
        n = len(ts)
        for k in (2, 3, 4, 5):
            if n >= 2 * k and ts[n - k:] == ts[n - 2 * k:n - k] and not any(x[0] in ('get', 'unlock', 'convert', 'inc') for x in ts[n - k:]): ts = ts[:n - k]; break
        st.ts = ts
        if len(ts) > 40: raise Budget('too many events in a query')
    def widen_ts(self, old, new): return new
    def fork(self, st, *alts):
        out = []
        for i, a in enumerate(alts):
            s = st if i == len(alts) - 1 else st.copy()
            out.append((s, a))
        return out
    def call(self, eng, st, fr, node, name, obj, args):
        p = name.split('::')
        sn = p[-1]
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name.startswith('cache::CacheManager::'):
            if sn == 'get' and len(args) == 3:
                k = sum(1 for e in (st.ts or ()) if e[0] == 'get')
                if k > 3: return []
                blk = ld(args[0]); slot = ('op', 'slot', C(k)); data = ('op', 'slotdata', C(k)); old = ('op', 'oldblock', C(k))
                s2 = st.copy(); out = []
                for s, hit in ((s2, True), (st, False)):
                    for a, v in ((args[1], slot), (args[2], data)):
                        if a is None or a[0] not in ('L', 'obj'): raise AnalysisBroken('CacheManager::get: unexpected argument')
                        eng.write(s, eng.canon(s, a[1]), v)
                    self.ev(s, ('get', blk, slot, data, hit, obj))
                    if not hit: eng.assume(s, cmp('==', blk, old), False)
                    s.path = (s.path, (fr.fn['file'], node.get('l'), 'block is cached' if hit else 'block is not cached'))
                    out.append((s, blk if hit else old))
                return out
            if sn == 'unlock':
                self.ev(st, ('unlock', ld(args[0]), obj)); return [(st, ZERO)]
            if sn == 'tryGet': raise AnalysisBroken('a query uses CacheManager::tryGet directly')
        if name.startswith('transfer::'):
            a = tuple(ld(x) if not (i == 3 and sn == 'transfer' and 'MPI' in p[-2]) else None for i, x in enumerate(args))
            cls = p[-2]
            if sn == 'transfer' and cls.startswith('Numa'):
                out = []
                for s, v in self.fork(st, True, False):
                    self.ev(s, ('numa', a, v, cls)); out.append((s, C(v)))
                    s.path = (s.path, (fr.fn['file'], node.get('l'), 'NUMA transfer ' + ('supplies the block' if v else 'fails')))
                return out
            if sn == 'transfer' and len(args) == 3:
                self.ev(st, ('mpifull', a, True, cls)); return [(st, ZERO)]
            if sn == 'transfer' and len(args) == 4:
                out = []
                for s, (v, r) in self.fork(st, (True, False), (False, False), (False, True)):
                    self.ev(s, ('mpi', a[:3], v, r))
                    loc = eng.canon(s, args[3][1]) if args[3] is not None and args[3][0] in ('L', 'obj') else None
                    if loc is None: raise AnalysisBroken('transfer: unexpected retry argument')
                    eng.write(s, loc, C(r)); out.append((s, C(v)))
                    s.path = (s.path, (fr.fn['file'], node.get('l'), 'MPI transfer ' + ('supplies the block' if v else 'fails' + (', retry' if r else ''))))
                return out
            k = {'startTransfer': 'start', 'endTransfer': 'end', 'addBlock': 'add', 'deleteBlock': 'del'}.get(sn)
            if k:
                self.ev(st, (k, a))
                return [(st, ('op', 'entry') if k == 'start' else ZERO)]
        if name.startswith('types::') and sn == 'load':
            pos = ld(args[1]); size = ld(args[2])
            self.ev(st, ('load', pos, size, ld(args[3]))); return [(st, ZERO)]
        if name.startswith('types::') and sn == 'convert':
            self.ev(st, ('convert', ld(args[0]), ld(args[1]))); return [(st, ZERO)]
        if name == 'perf::Counter::inc':
            self.ev(st, ('inc', ld(args[0]))); return [(st, ZERO)]
        if name.startswith(L + 'Blocked::') or name.startswith(L + 'Level::'):
            k = {'blockByCoords': 'blk', 'blockRank': 'rank', 'blockDomain': 'dom', 'blockOffset': 'off', 'blockNodeOffset': 'noff', 'calcOffsetInBlock': 'inb'}.get(sn)
            if k: return [(st, ('op', k, ld(args[0])))]
            if sn == 'pos2index': return [(st, ZERO)]
            if sn == 'typeSize': return [(st, S('typeSize'))]
            if sn == 'totalBlockSize': return [(st, S('blockSize'))]
            if sn == 'comm' or sn == 'numa' or sn == 'inputFile': return None
        if name.startswith('numa::') and sn == 'domainId': return [(st, S('domainId'))]
        if name.startswith('numa::') and sn == 'threadId': return [(st, S('threadId'))]
        if name.startswith('mpi::') and sn == 'rank': return [(st, S('rank'))]
        return None

_cache = {}
def queries(prog, rep=None, all_types=False):
    """[(class short name, clsfull, function, [(events, state)])]"""
    out = []
    seen = set()
    for cls in ('Full', 'FullDist', 'Cache', 'CacheDist', 'PassThrough'):
        fns = prog.fns(L + cls + '::getAt', required=False)
        if not fns: raise AnalysisBroken('getAt of %s not found' % cls)
        for fn in fns:
            if fn['clsfull'] in seen and not all_types: continue
            seen.add(fn['clsfull'])
            k = (prog.cfg, fn['id'])
            if k not in _cache:
                c = QueryClient(prog)
                res, e = summary(prog, fn, client=c, budget=400000)
                _cache[k] = ([(s.ts or (), s) for s, v in res], e)
            res, e = _cache[k]
            if rep is not None: rep.engine(prog, e)
            out.append((cls, fn['clsfull'], fn, res))
    return out

def ptrbase(eng, v):
    """(base value, offset) of a pointer value"""
    l = Engine.deref(v)
    if l[0] == 'e' and l[1][0] == 'd': return l[1][1], l[2]
    if l[0] == 'd': return l[1], ZERO
    return v, ZERO

def short(full):
    import re
    return re.sub(r'(grid::level::|transfer::|types::|allocator::|BasicType<float>, |, BasicType<float>)', '', full)
