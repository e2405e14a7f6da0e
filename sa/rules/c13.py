"""C13: the process-wide MPI lock as a two-state monitor, summarised bottom-up over the call graph."""
from ..locks import *
from ..engine import calls, walk_nodes

EXEMPT_CLS = ('mpi::CommThread',)
NOMPI = ('MPI_Get_processor_name',)

def locktype(p):
    """class of the process-wide MPI lock in this configuration, its location"""
    for g in p.globals.values() if isinstance(p.globals, dict) else p.globals:
        n = g.get('n', '')
        if n.startswith('mpi::MPIComm::'):
            t = g.get('t', '')
            if isinstance(t, int): t = g['T'][t] if 'T' in g else str(t)
            if 'utex' in str(t) or 'Lock' in str(t): return str(t), ('g', n)
    return None, None

class Monitor:
    """state = (lock held, inside a bracketed transfer)"""
    def __init__(self, p, rep, lock, exempt, pred=lambda n: n.startswith('MPI_') and n not in NOMPI):
        self.p, self.rep, self.lock, self.pred = p, rep, lock, pred
        self.exempt = exempt
        self.callees, self.callers, rel = {}, {}, set()
        for f in p.funcs.values():
            if not f.get('blocks') or exempt(f): continue
            cs = set(); d = False
            for n in walk_nodes(f):
                if n['k'] in ('call', 'ctor'):
                    nm = n.get('n') or ''
                    if self.pred(nm): d = True
                    if n.get('fn') is not None:
                        cs.add(n['fn'])
                        if n.get('virt'): cs |= set(p.overriders.get(n['fn'], ()))
                elif n['k'] == 'delete' and n.get('dtor') and n['dtor'].get('fn') is not None:
                    cs.add(n['dtor']['fn'])
                elif n['k'] in ('adtor', 'tdtor', 'bdtor', 'mdtor') and n.get('fn'): cs.add(n['fn'])
                elif n['k'] == 'ref' and n.get('n') == self.lock[1]: d = True
            if d: rel.add(f['id'])
            self.callees[f['id']] = cs
        for i, cs in self.callees.items():
            for c in cs: self.callers.setdefault(c, set()).add(i)
        work = list(rel)
        while work:
            x = work.pop()
            for c in self.callers.get(x, ()):
                if c not in rel: rel.add(c); work.append(c)
        self.rel = rel; self.sums = {}; self.active = set(); self.sites = set()
    def summary(self, i, entry):
        """(exit states, [problems]) of a function entered in a state"""
        k = (i, entry)
        if k in self.sums: return self.sums[k]
        if i in self.active: return ({entry}, {})
        self.active.add(i)
        f = self.p.funcs[i]
        c = MpiClient(self, f)
        e = Engine(self.p, c, 400000)
        st = State()
        loc = self.lock
        st.ts = (((loc, 'x'),) if entry[0] else (), (('in',),) if entry[1] else ())
        res = e.run(f, st=st)
        self.rep.engine(self.p, e)
        exits = set((bool(c.held(s)), ('in',) in c.evs(s)) for s, v in res)
        self.sums[k] = (exits, c.bad)
        self.active.discard(i)
        return self.sums[k]

class MpiClient(LockClient):
    def __init__(self, mon, f):
        LockClient.__init__(self, mon.p); self.m = mon; self.f = f; self.bad = {}
    def note(self, kind, msg, fn, line, st): self.bad.setdefault((kind, fn['n'], msg), (fn, line, st.trace()))
    def inline(self, eng, fn, name): return False
    def acquire(self, eng, st, fr, node, loc, how='x'):
        if eng.canon(st, loc) == self.m.lock: LockClient.acquire(self, eng, st, fr, node, loc, how)
    def release(self, eng, st, fr, node, loc):
        if eng.canon(st, loc) != self.m.lock: return
        if ('in',) in self.evs(st): self.note('bracket', 'releases the MPI lock inside a bracketed window transfer', fr.fn, node.get('l') if isinstance(node, dict) else None, st)
        if self.held(st): LockClient.release(self, eng, st, fr, node, loc)
    def widen_ts(self, old, new): return new
    def apply(self, eng, st, fr, node, i):
        entry = (bool(self.held(st)), ('in',) in self.evs(st))
        exits, bad = self.m.summary(i, entry)
        for (kind, fn, msg), (g, l, tr) in bad.items(): self.bad.setdefault((kind, fn, msg), (g, l, [(fr.fn['file'], node.get('l') if isinstance(node, dict) else None, 'calls ' + self.m.p.funcs[i]['n'])] + tr))
        out = []
        for x in sorted(exits):
            s = st.copy()
            s.ts = (((self.m.lock, 'x'),) if x[0] else (), (('in',),) if x[1] else ())
            out.append(s)
        return out
    def special(self, eng, st, fr, node, name, obj, args):
        if self.m.pred(name):
            self.m.sites.add((fr.fn['n'], node.get('l'), name))
            if not self.held(st): self.note('unlocked', name, fr.fn, node.get('l'), st)
            return None
        i = node.get('fn')
        tg = [i] if i is not None else []
        if node.get('virt') and i is not None: tg += sorted(self.m.p.overriders.get(i, ()))
        tg = [t for t in tg if t in self.m.rel and t in self.m.p.funcs and self.m.p.funcs[t].get('blocks')]
        if not tg: return None
        out = []
        a = [eng.load(st, x) if x is not None and x[0] not in ('L', 'obj') else x for x in args]
        if node['k'] == 'ctor': rv = None
        else: rv = eng.do_opaque(st, fr, node, name, obj, list(a))
        for t in tg:
            for s in self.apply(eng, st.copy(), fr, node, t):
                g = self.m.p.funcs[t]
                if g['cls'] == 'mpi::Mutex' and g['sn'] == 'acquire': s.ts = (s.ts[0], (('in',),))
                if g['cls'] == 'mpi::Mutex' and g['sn'] == 'release': s.ts = (s.ts[0], ())
                out.append((s, rv))
        return out
    def dtor(self, eng, st, fr, e, name, loc):
        r = LockClient.dtor(self, eng, st, fr, e, name, loc)
        if r is not None: return r
        i = e.get('fn') if isinstance(e, dict) else None
        if i in self.m.rel and i in self.m.p.funcs and self.m.p.funcs[i].get('blocks') and i != self.f['id']:
            return self.apply(eng, st, fr, e, i)
        return None

def exempt(f):
    c = f.get('cls') or ''
    return c in EXEMPT_CLS or c.startswith('transfer::MPIThread') or c.startswith('transfer::MPIThread') \
        or (c == 'asagi::Grid') or 'MPIThread' in (f.get('clsfull') or '') or f.get('file', '').endswith(('asagi_f90.cpp',))

def run(rep):
    rep.rule('C13.locked', 'every MPI call reachable from opening, querying or destroying a grid is made with mpi::MPIComm::mpiLock held; helpers that rely on the caller are checked in every caller')
    rep.rule('C13.bracket', 'mpiLock is not released between the acquisition of the distributed mutex and its release')
    rep.rule('C13.balanced', 'functions called from outside return without the lock')
    n = 0
    for cfg, p in programs(['default', 'nonuma'] if TIER != 'quick' else ['default']).items():
        t, lock = locktype(p)
        if lock is None: raise AnalysisBroken('no process-wide MPI lock')
        rep.ob('C13.locked', 'the process-wide MPI lock is a real mutex in the build for MPI implementations without thread support', 'Noop' not in t and any(x.split('::')[-1] in t for x in LOCK_CLS + ('threads::Mutex', 'Lock')), 'the lock is a ' + t)
        m = Monitor(p, rep, lock, exempt)
        for i in sorted(m.rel):
            f = p.funcs[i]
            exits, bad = m.summary(i, (False, False))
            callers = [c for c in m.callers.get(i, ()) if c in m.rel]
            iface = f.get('virtual') or any(i in o for o in p.overriders.values())
            if callers and not iface: continue      # its callers decide
            root = f['n']
            for (kind, fn, msg), (g, l, tr) in bad.items():
                if kind == 'unlocked': rep.ob('C13.locked', '%s in %s' % (msg, fn), False, '%s is called without mpiLock (reached from %s)' % (msg, root), g, l, tr)
                else: rep.ob('C13.bracket', '%s' % fn, False, msg, g, l, tr)
            if not bad: rep.ob('C13.locked', 'everything reached from ' + root, True)
            rep.ob('C13.balanced', root, all(not x[0] for x in exits), 'returns with mpiLock held on a path', f)
            n += 1
        rep.floor(cfg + ': MPI call sites', len(m.sites), 30)
    rep.floor('entry points analysed', n, 10)
