"""C12: epochs of one-sided communication as a typestate of (window, target rank), and the memory the windows are created over."""
from ..query import *
from ..xfer import *
from . import c29
from .c29 import TR, byparam, inits, F

# operation -> (buffers it reads, buffers it fills, position of the target rank, of the window, of the displacement)
RMA = {'MPI_Get': ((), (0,), 3, 7, 4), 'MPI_Rget': ((), (0,), 3, 7, 4), 'MPI_Put': ((0,), (), 3, 7, 4), 'MPI_Rput': ((0,), (), 3, 7, 4),
       'MPI_Accumulate': ((0,), (), 3, 8, 4), 'MPI_Get_accumulate': ((0,), (3,), 6, 11, 7),
       'MPI_Fetch_and_op': ((0,), (1,), 3, 6, 4), 'MPI_Compare_and_swap': ((0, 1), (2,), 4, 6, 5)}
ATOMIC = ('MPI_Accumulate', 'MPI_Get_accumulate', 'MPI_Fetch_and_op', 'MPI_Compare_and_swap')
FLUSH = ('MPI_Win_flush', 'MPI_Win_flush_local')
EPOCH = ('MPI_Win_lock', 'MPI_Win_unlock', 'MPI_Win_lock_all', 'MPI_Win_unlock_all') + FLUSH + ('MPI_Win_flush_all', 'MPI_Win_flush_local_all')
WINOPS = tuple(RMA) + EPOCH

def buf(v):
    """the array a buffer argument points into"""
    l = Engine.deref(v)
    return l[1] if l[0] == 'e' else l
def lockall(k): return k[1] == 'all'

class Windows(XferClient):
    """events carry the epochs: the typestate is recomputed from the events of the path"""
    def __init__(self, prog, consts, dictfields=(), **k):
        XferClient.__init__(self, prog, mutex=False, **k)
        self.consts = consts; self.bad = []; self.sites = set(); self.dictfields = dictfields; self.ops = []; self.locks = {}
    def state(self, st):
        ep, pend = {}, []
        for e in self.evs(st):
            if e[0] == 'EP': ep, pend = dict(e[1]), list(e[2])
        return ep, pend
    def put(self, st, ep, pend):
        h, ev = st.ts or ((), ())
        ev = tuple(e for e in ev if e[0] != 'EP') + (('EP', tuple(sorted(ep.items(), key=repr)), tuple(pend)),)
        st.ts = (h, ev)
    def report(self, what, msg, fr, node, st): self.bad.append((what, msg, fr.fn, node.get('l') if isinstance(node, dict) else None, st.trace()))
    def same(self, eng, st, a, b):
        if a == b: return True
        return eng.decide(st, cmp('==', a, b)) is True
    def find(self, eng, st, ep, win, rank):
        for (w, r) in ep:
            if self.same(eng, st, w, win) and (r == 'all' or self.same(eng, st, r, rank)): return (w, r)
        return None
    def mpi(self, eng, st, fr, node, name, a):
        if name not in WINOPS: return None
        self.sites.add((fr.fn['n'], node.get('l'), name))
        w = '%s in %s' % (name, fr.fn['n'])
        self.quiet = True
        eng.do_opaque(st, fr, node, name, None, list(a))
        self.quiet = False
        ep, pend = self.state(st)
        if name in ('MPI_Win_lock', 'MPI_Win_lock_all'):
            win, rank = (a[3], a[1]) if name == 'MPI_Win_lock' else (a[1], 'all')
            typ = a[0] if name == 'MPI_Win_lock' else C(self.consts['MPI_LOCK_SHARED'])
            ass = a[2] if name == 'MPI_Win_lock' else a[0]
            if any(self.same(eng, st, k[0], win) and (k[1] == 'all' or rank == 'all' or self.same(eng, st, k[1], rank)) for k in ep):
                self.report('relock', 'locks a window that is already locked for this rank', fr, node, st)
            elif any(self.same(eng, st, k[0], win) for k in ep):
                self.report('relock', 'locks the window for a second rank while it is locked for another one', fr, node, st)
            ep[(win, rank)] = typ
            self.locks.setdefault(win, []).append((typ, ass, fr.fn, node.get('l')))
            self.put(st, ep, pend)
        elif name in ('MPI_Win_unlock', 'MPI_Win_unlock_all'):
            win, rank = (a[1], a[0]) if name == 'MPI_Win_unlock' else (a[0], 'all')
            k = next((k for k in ep if self.same(eng, st, k[0], win) and (k[1] == rank or (rank != 'all' and k[1] != 'all' and self.same(eng, st, k[1], rank)))), None)
            if k is None: self.report('unlock', 'unlocks window %s of rank %s, which is not locked (locked: %s)' % (show(win), rank if rank == 'all' else show(rank), self.names(ep)), fr, node, st)
            else: del ep[k]
            pend = [q for q in pend if not (self.same(eng, st, q[1], win) and (rank == 'all' or self.same(eng, st, q[2], rank)))]
            self.put(st, ep, pend)
        elif name in FLUSH or 'flush' in name:
            win, rank = (a[1], a[0]) if name in FLUSH else (a[0], 'all')
            if self.find(eng, st, ep, win, rank if rank != 'all' else ZERO) is None and not (rank == 'all' and any(self.same(eng, st, k[0], win) for k in ep)):
                self.report('flush', 'flushes window %s outside of an epoch (locked: %s)' % (show(win), self.names(ep)), fr, node, st)
            pend = [q for q in pend if not (self.same(eng, st, q[1], win) and (rank == 'all' or self.same(eng, st, q[2], rank)))]
            self.put(st, ep, pend)
        else:
            ins, outs, pr, pw, pd = RMA[name]
            win, rank = a[pw], a[pr]
            k = self.find(eng, st, ep, win, rank)
            if k is None: self.report('access', '%s of rank %s through window %s, which is not locked for it (locked: %s)' % (name, show(rank), show(win), self.names(ep)), fr, node, st)
            elif name in ('MPI_Put', 'MPI_Rput') and ep[k] != C(self.consts['MPI_LOCK_EXCLUSIVE']):
                self.report('exclusive', '%s under a window lock that is not exclusive' % name, fr, node, st)
            for i in ins + outs:
                for q in pend:
                    if q[0] == buf(a[i]) and (q[3] == 'out' or i in outs): self.report('pending', '%s uses a buffer of %s before that access has been completed' % (name, q[4]), fr, node, st)
            pend = list(pend) + [(buf(a[i]), win, rank, 'out', name) for i in outs] + [(buf(a[i]), win, rank, 'in', name) for i in ins]
            self.ops.append((name, a, st, fr.fn, node.get('l')))
            self.put(st, ep, pend)
            st.ts = (st.ts[0], st.ts[1] + (('MPI', name, a),))
        return [(st, ZERO)]        # failing accesses are asserted away
    def names(self, ep): return ', '.join('%s of %s' % (show(k[0]), k[1] if k[1] == 'all' else show(k[1])) for k in ep) or 'none'
    quiet = False
    def touch(self, eng, st, fr, node, loc, how):
        if self.quiet: return
        ep, pend = self.state(st)
        loc = eng.canon(st, loc)
        for q in pend:
            if q[0] in through(loc) or (loc[0] == 'd' and q[0] == loc):
                if how == 'read' and q[3] == 'out': self.report('pending', 'reads the result of %s before the access has been completed' % q[4], fr, node, st)
                if how == 'write': self.report('pending', 'overwrites a buffer of %s before the access has been completed' % q[4], fr, node, st)
        for d in self.dictfields:
            if loc[0] == 'e' and any(x == ('d', ('i', d)) for x in through(loc)) and self.inlib(fr):
                ok = any(typ == C(self.consts['MPI_LOCK_EXCLUSIVE']) and (r == 'all' or self.same(eng, st, r, S('mpirank'))) for (w, r), typ in ep.items())
                self.ops.append(('local', how, ok, fr.fn, node.get('l') if isinstance(node, dict) else None, st.trace()))
    def inlib(self, fr): return True
    def read(self, eng, st, fr, node, loc): self.touch(eng, st, fr, node, loc, 'read'); return None
    def write(self, eng, st, fr, node, loc, val): self.touch(eng, st, fr, node, loc, 'write'); return None
    def special(self, eng, st, fr, node, name, obj, args):
        if name in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            a = [eng.load(st, x, fr, node) for x in args]
            ep, pend = self.state(st)
            for q in pend:
                if buf(a[1]) == q[0] and q[3] == 'out': self.report('pending', 'copies the result of %s before the access has been completed' % q[4], fr, node, st)
                if buf(a[0]) == q[0]: self.report('pending', 'overwrites a buffer of %s before the access has been completed' % q[4], fr, node, st)
        return XferClient.special(self, eng, st, fr, node, name, obj, args)
    def opaque(self, eng, st, fr, node, name, obj, args):
        if name.startswith('MPI_'): return
        ep, pend = self.state(st)
        for x in args:
            if isinstance(x, tuple) and x and x[0] == '&':
                for q in pend:
                    if q[0] in (buf(x), x[1]) and q[3] == 'out': self.report('pending', 'passes the result of %s to %s before the access has been completed' % (q[4], name), fr, node, st)

def consts(p):
    out = {}
    for n in ('MPI_LOCK_EXCLUSIVE', 'MPI_LOCK_SHARED'):
        out[n] = next((v for e in p.enums.values() for k, v in e['c'] if k == n), {'MPI_LOCK_EXCLUSIVE': 1, 'MPI_LOCK_SHARED': 2}[n])
    return out

def users(p):
    """functions with a direct one-sided operation, and their callers inside the library, bottom up"""
    direct = [f for f in p.funcs.values() if f.get('blocks') and any(c['n'] in WINOPS for c in named(f))]
    return direct
def named(f):
    for c in calls(f):
        if c.get('n'): yield c

def mutexwin(p, rep):
    """which window of the transfer class its distributed mutex works on: field -> field"""
    out = {}
    for fn in p.fns(TR + 'MPIWinCache::init', required=False):
        cl = WinInit(p, mutex=False)
        for ev, h, s, v in paths(p, fn, rep, args=byparam(fn), client=cl):
            if v != ZERO or not any(e[0] == 'MPI' and e[1] == 'MPI_Win_create' for e in ev): continue
            mx = [c['n'] for c in p.classes.values() if c['n'] == 'mpi::Mutex']
            wf = [f['n'] for c in p.classes.values() if c['n'] == 'mpi::Mutex' for f in c['fields'] if 'MPI_Win' in c29.c_type(c, f) or 'ompi_win' in c29.c_type(c, f)]
            if not mx or not wf: raise AnalysisBroken('mpi::Mutex has no window')
            pf = [f['n'] for c in p.classes.values() if c['n'] == TR + 'MPIWinCache' for f in c['fields'] if 'mpi::Mutex' in c29.c_type(c, f)]
            if len(pf) != 1: raise AnalysisBroken('MPIWinCache has %d distributed mutexes' % len(pf))
            e = Engine(p, Client())
            obj = e.read(s, F(pf[0]))
            win = e.read(s, ('f', Engine.deref(obj), wf[0]))
            same = [k[2] for k, y in s.store.items() if k[0] == 'f' and k[1] == THISLOC and y == win]
            rep.ob('C12.mutex', 'the distributed mutex works on a window of its owner', len(same) == 1, 'the mutex is initialised with %s' % show(win), fn, trace=s.trace())
            if same: out[('f', ('d', ('i', F(pf[0]))), wf[0])] = ('i', F(same[0]))
    return out

class WinInit(InitClient):
    def mpi(self, eng, st, fr, node, name, a):
        if name != 'MPI_Win_create': return None
        k = sum(1 for e in self.evs(st) if e[0] == 'MPI' and e[1] == 'MPI_Win_create')
        self.emit(st, ('MPI', name, a))
        eng.write(st, Engine.deref(a[5]), ('op', 'window', C(k)))
        return [(st, ZERO)]

SIZES = {'long': 8, 'unsigned long': 8, 'long int': 8, 'char': 1, 'unsigned char': 1, 'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long long': 8}
def sized(t):
    """sizes of builtin types as numbers (LP64)"""
    return subst(t, lambda x: C(SIZES[x[2][1]]) if x[0] == 'op' and x[1] == 'sizeof' and x[2][1] in SIZES else None)

class Rename:
    def __init__(self, rep): self.r = rep
    def ob(self, rule, *a, **k): return self.r.ob('C12.window', *a, **k)
    def __getattr__(self, n): return getattr(self.r, n)

def created(rep, p):
    """each window: memory of all domains, in the unit of the element type the accesses use"""
    R = Rename(rep); n = 0; wins = {}
    tot = None
    for cls in ('MPIWinFull', 'MPIWinCache'):
        for fi in p.fns(TR + cls + '::init', required=False):
            for ev, h, s, v in paths(p, fi, rep, args=byparam(fi), client=WinInit(p)):
                if v != ZERO: continue
                cr = [e for e in ev if e[0] == 'MPI' and e[1] == 'MPI_Win_create']
                if not cr: continue
                n += 1
                bs = c29.BS
                if cls == 'MPIWinFull': need = [('blocks', lambda e: e[2][0] == S('data'), mul(mul(bs, S('blockCount')), S('totalDomains')), S('typeSize'))]
                else:
                    al = [e for e in ev if e[0] == 'alloc']
                    rep.ob('C12.window', cls + ': the directory is allocated on the domain that creates the window', len(al) == 1, '%d allocations' % len(al), fi, trace=s.trace())
                    if len(al) != 1: continue
                    # Allocator::allocate takes a number of elements of the pointee type (long)
                    dct = [f for f, y in s.store.items() if y == ('op', 'memory', ZERO)]
                    need = [('cache', lambda e: e[2][0] == S('data'), mul(bs, mul(S('cacheSize'), S('totalDomains'))), S('typeSize')),
                            ('directory', lambda e: e[2][0] == ('op', 'memory', ZERO), mul(C(8), al[0][3]), C(8))]
                rep.ob('C12.window', cls + ': number of windows', len(cr) == len(need), '%d windows' % len(cr), fi, trace=s.trace())
                for what, pick, size, unit in need:
                    e = [e for e in cr if pick(e)]
                    rep.ob('C12.window', '%s: the window of the %s' % (cls, what), len(e) == 1, '%d windows over the %s: %s' % (len(e), what, [show(x[2][0]) for x in cr]), fi, trace=s.trace())
                    for x in e:
                        rep.ob('C12.window', '%s: the window covers the whole %s' % (cls, what), sized(x[2][1]) == sized(size), 'size %s, needed %s' % (show(x[2][1]), show(size)), fi, trace=s.trace())
                        rep.ob('C12.window', '%s: displacement unit of the %s' % (cls, what), sized(x[2][2]) == unit, 'unit %s, needed %s' % (show(x[2][2]), show(unit)), fi, trace=s.trace())
                        rep.ob('C12.window', '%s: communicator of the %s' % (cls, what), x[2][4] == S('comm'), 'created on %s' % show(x[2][4]), fi, trace=s.trace())
                        wl = Engine.deref(x[2][5])
                        wins.setdefault(cls, {})[what] = wl
    return n, wins

def run(rep):
    rep.rule('C12.epoch', 'every one-sided operation and flush addresses a window and rank locked on this path; locks pair with unlocks; no lock is nested')
    rep.rule('C12.pending', 'buffers of one-sided operations are neither read (results) nor overwritten before flush or unlock')
    rep.rule('C12.closed', 'no window lock is held when a function returns, except helpers of the same class that are analysed inside their callers')
    rep.rule('C12.nocheck', 'locks that assert the absence of conflicts are only used on windows that are never locked exclusively')
    rep.rule('C12.local', 'the local part of a directory window is read and written within an exclusive lock of the own rank')
    rep.rule('C12.window', 'windows are created over the memory of all domains with the unit of the elements the accesses use')
    rep.rule('C12.mutex', 'the distributed mutex uses the window of its owner')
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        direct = users(p)
        if cfg.startswith('nompi') or cfg.endswith('nompi') or cfg == 'nompi3':
            if not direct: continue
        store = mutexwin(p, rep)
        nw, wins = created(rep, p)
        rep.floor(cfg + ': window creations', nw, 2)
        dictwin = wins.get('MPIWinCache', {}).get('directory')
        df = [k for c in p.classes.values() if c['n'].startswith('transfer::MPICache') for f in c['fields'] if 'long *' in c29.c_type(c, f) and 'unsigned' not in c29.c_type(c, f) for k in [F(f['n'])]]
        # bottom up: functions that need or leave an epoch are analysed inside their callers
        callers = {}
        for f in p.funcs.values():
            for c in calls(f):
                if c.get('fn') is not None: callers.setdefault(c['fn'], set()).add(f['id'])
        todo = list(direct); done = set(); locks = {}; nsites = set(); nloc = 0
        while todo:
            f = todo.pop()
            if f['id'] in done: continue
            done.add(f['id'])
            cl = Windows(p, consts(p), df)
            ps = paths(p, f, rep, store=dict(store), client=cl)
            nsites |= cl.sites
            dirty = [b for b in cl.bad if b[0] in ('access', 'flush', 'unlock')]
            left = [(ev, s) for ev, h, s, v in ps if cl.state(s)[0]]
            calls_in = [p.funcs[i] for i in callers.get(f['id'], ()) if i in p.funcs]
            helper = bool(calls_in) and (f['cls'] == 'mpi::Mutex' or all(g['cls'] == f['cls'] or within(f, g) for g in calls_in))
            callee_dirty = False
            if (dirty or left) and helper:
                todo += calls_in; rep.notes.append('%s: epochs of %s are analysed in its callers' % (cfg, f['n'])) if '%s: epochs of %s are analysed in its callers' % (cfg, f['n']) not in rep.notes else None
                for b in cl.bad:
                    if b[0] in ('pending', 'relock'): rep.ob('C12.pending', '%s: %s' % (b[2]['n'], b[0]), False, b[1], b[2], b[3], b[4])
                continue
            rep.ob('C12.closed', f['n'], not left, 'returns while %s' % (('window %s is locked' % cl.names(cl.state(left[0][1])[0])) if left else ''), f, trace=left[0][1].trace() if left else None)
            groups = {}
            for b in cl.bad: groups.setdefault((b[0], b[2]['n']), b)
            for b in groups.values():
                rep.ob('C12.pending' if b[0] == 'pending' else 'C12.epoch', '%s: %s' % (b[2]['n'], b[0]), False, b[1], b[2], b[3], b[4])
            if not cl.bad:
                for s in sorted(cl.sites, key=repr): rep.ob('C12.epoch', '%s (reached from %s)' % (s[2] + ' in ' + s[0], f['n']), True)
            for w, l in cl.locks.items(): locks.setdefault((f['cls'], w), []).extend(l)
            for o in cl.ops:
                if o[0] == 'local':
                    nloc += 1
                    rep.ob('C12.local', '%s: %s of the local directory' % (o[3]['n'], o[1]), o[2], 'the local directory is accessed without an exclusive lock of the own rank', o[3], o[4], o[5])
                elif f['cls'] in (TR + 'MPIWinCache', TR + 'MPIWinFull') or f['cls'].startswith('mpi::'):
                    units(rep, p, f, o, wins.get(f['cls'].split('::')[-1], {}))
        for (c, w), l in locks.items():
            excl = [x for x in l if x[0] == C(consts(p)['MPI_LOCK_EXCLUSIVE'])]
            nock = [x for x in l if x[1] != ZERO and x[1] is not None]
            rep.ob('C12.nocheck', '%s: %s' % (c, show(w)), not (excl and nock), 'locked exclusively in %s and with NOCHECK in %s' % (sorted(set(x[2]['n'] for x in excl)), sorted(set(x[2]['n'] for x in nock))), nock[0][2] if nock else l[0][2])
        rep.floor(cfg + ': one-sided call sites', len(nsites), 20)
        rep.floor(cfg + ': accesses to the local directory', nloc, 4)

def within(f, g): return g['cls'].startswith(f['cls'] + '::') or f['cls'].startswith(g['cls'] + '::')

def units(rep, p, f, o, wins):
    """element type of an access = unit of its window"""
    name, a, st, fn, line = o
    ins, outs, pr, pw, pd = RMA[name]
    e = Engine(p, Client())
    what = [k for k, l in wins.items() if a[pw] == ('i', l)]
    if not what: rep.ob('C12.window', '%s in %s goes through a window of the object' % (name, fn['n']), False, 'window %s' % show(a[pw]), fn, line, st.trace()); return
    types = [x for x in a[:pw] if 'mpi_long' in show(x).lower() or 'mpitype' in show(x).lower()]
    tp = {'MPI_Get': (2, 6), 'MPI_Put': (2, 6), 'MPI_Rget': (2, 6), 'MPI_Rput': (2, 6), 'MPI_Accumulate': (2, 6), 'MPI_Fetch_and_op': (2,), 'MPI_Compare_and_swap': (3,), 'MPI_Get_accumulate': (2, 5, 9)}[name]
    for i in tp:
        t = show(a[i])
        ok = ('long' in t) if what[0] == 'directory' else ('long' not in t)
        rep.ob('C12.window', '%s in %s: element type of the %s' % (name, fn['n'], what[0]), ok, 'element type %s' % t, fn, line, st.trace())
