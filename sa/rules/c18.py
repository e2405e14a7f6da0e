"""C18: ownership typestate over whole life cycles: constructor, every sequence of initialisations with every failure, destructor."""
from ..xfer import *
from ..engine import calls, walk_nodes
import re, time

SZ = {'unsigned char': 1, 'int': 4, 'long': 8, 'float': 4, 'double': 8}

# MPI handles: operation -> (index of the handle, kind)
MAKE = {'MPI_Comm_dup': (1, 'MPI communicator'), 'MPI_Comm_split': (3, 'MPI communicator'), 'MPI_Comm_create': (2, 'MPI communicator'), 'MPI_Comm_split_type': (4, 'MPI communicator'),
        'MPI_Comm_group': (1, 'MPI group'), 'MPI_Group_incl': (3, 'MPI group'),
        'MPI_Type_contiguous': (2, 'MPI type'), 'MPI_Type_create_struct': (4, 'MPI type'), 'MPI_Type_create_resized': (3, 'MPI type'), 'MPI_Type_vector': (4, 'MPI type'), 'MPI_Type_dup': (1, 'MPI type'),
        'MPI_Win_create': (5, 'MPI window'), 'MPI_Win_allocate': (5, 'MPI window'), 'MPI_Alloc_mem': (2, 'MPI memory')}
FREE = {'MPI_Comm_free': 'MPI communicator', 'MPI_Group_free': 'MPI group', 'MPI_Type_free': 'MPI type', 'MPI_Win_free': 'MPI window'}
NULLOF = {'MPI communicator': 'ompi_mpi_comm_null', 'MPI group': 'ompi_mpi_group_null', 'MPI type': 'ompi_mpi_datatype_null', 'MPI window': 'ompi_mpi_win_null'}
# names of the library whose resources are examined in a life cycle of their own
REL = {'new': 'delete', 'new[]': 'delete[]', 'MPI memory': 'MPI_Free_mem', 'malloc': 'free'}

class LifeEngine(Engine):
    """conditions on data (sizes, positions) do not decide who owns what: the paths they distinguish are joined"""
    forget = False
    def assume(self, st, t, taken):
        Engine.assume(self, st, t, taken)
        if self.forget:
            for c in [c for c in st.conds if not self.relevant(c)]: del st.conds[c]
    def relevant(self, c):
        """does the term concern ownership (handles, errors, the domain), or data?"""
        x = repr(c)
        if "'data'" in x: return False
        return "'made'" in x or "'error" in x or "'shared'" in x or "('p', 'error" in x
    def write(self, st, loc, val):
        if self.forget and val is not None and val[0] != '&' and not (loc[0] == 'f' and loc[2][:1] == '#'):
            if loc[0] == 'e' and not self.relevant(val): val = ('op', 'data')
            elif val[0] not in ('c', 'lam') and not self.relevant(val) and not (val[0] == 'op' and val[1] == 'undef'): val = ('op', 'data')
        Engine.write(self, st, loc, val)

class Life(LockClient):
    """ts = (locks, resources owned now); the class in `own` and its bases are followed, everything else answers with success or failure"""
    def __init__(self, p, own, varsize=None, dom=ZERO):
        LockClient.__init__(self, p); self.own = own; self.sites = {}; self.inits = []; self.varsize = varsize; self.phase = ''; self.dom = dom
        self.released = 0; self.fnsites = set(); self.hook = None; self.nofail = False
    def widen_ts(self, old, new): return new
    def ts_syms(self, ts): return set()
    def mapnew(self, eng, st, obj, key): return False if key[0] == 'op' and key[1] == 'reduced' else None     # a fresh tag
    def live(self, st): return self.evs(st)
    def setlive(self, st, l): st.ts = (self.held(st), tuple(sorted(l, key=repr)))
    def acquire_(self, eng, st, fr, node, kind, v):
        self.sites.setdefault((kind, fr.fn['n'], node.get('l')), fr.fn)
        self.fnsites.add((fr.fn['id'], node.get('l')))
        if len(self.live(st)) > 40: raise Budget('too many resources')
        self.setlive(st, self.live(st) + ((kind, v, (fr.fn['n'], fr.fn['file'], node.get('l'))),))
    def release_(self, eng, st, fr, node, kind, v, how):
        self.released += 1
        def bad(msg): self.problem('own', msg, fr, node, st)
        if v is None or v == ('op', 'undef'): bad('%s is given a value that was never set' % how); return False
        if kind in ('new', 'new[]', 'MPI memory', 'malloc'):
            if eng.decide(st, cmp('==', v, ZERO)) is True: return False
        elif v == ('&', ('g', NULLOF.get(kind))): bad('%s is called without a handle' % how); return False
        for t in self.live(st):
            if t[1] != v: continue
            l = list(self.live(st)); l.remove(t); self.setlive(st, l)
            if t[0] != kind: bad('%s releases what was obtained by %s' % (how, t[0]))
            return True
        bad('%s releases %s, which this object does not own here (released before, never obtained, or owned by another domain)' % (how, show(v)[:90]))
        return False
    def special(self, *a):
        r = self.special_(*a)
        return [x for x in r if x is not None] if r is not None else None
    # ---- acquisition
    def newed(self, eng, st, fr, node, loc): self.acquire_(eng, st, fr, node, 'new', ('&', loc))
    def alloc(self, eng, st, fr, node, loc, n): self.acquire_(eng, st, fr, node, 'new[]', ('&', ('e', loc, ZERO)))
    def owned(self, name):
        return any(name.startswith(x) for x in self.own) and not name.startswith(('grid::Grid::param', 'grid::Grid::TypeSelector'))
    def inline(self, eng, fn, name): return self.owned(name)
    def special_(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        p = name.split('::'); sn = p[-1]
        if self.hook is not None:
            r = self.hook(eng, st, fr, node, name, obj, args)
            if r is not None: return r
        def fail(what):
            if self.nofail: return None
            s2 = st.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), what + ' fails'))
            site = (fr.fid, node.get('i')); e = ('op', 'error', C(str(site)), C(eng.count(s2, site))); eng.assume(s2, cmp('!=', e, ZERO), True)
            return (s2, e)
        def made(n=''):
            site = (fr.fid, node.get('i')); return ('op', 'made', C(name + n), C(str(site)), C(eng.count(st, site)))
        if node['k'] == 'ctor' and node.get('copy') and args and args[0] is not None and name.split('::')[0] in ('grid', 'types', 'transfer', 'cache', 'io', 'mpi', 'numa', 'threads', 'fortran') and obj is not None:
            pass
        if name == 'operator delete' or name == 'operator delete[]':
            v = ld(args[0]); arr = name.endswith('[]')
            had = [t for t in self.live(st) if t[1] == v]
            ok = self.release_(eng, st, fr, node, 'new[]' if arr else 'new', v, 'delete[]' if arr else 'delete')
            if had and not arr:
                d = node.get('dtor') or {}
                dyn = v[1][3] if v[0] == '&' and v[1][0] == 'h' and len(v[1]) > 3 else None
                if d and dyn and not d.get('virt') and not self.same(d.get('n', ''), dyn):
                    self.problem('own', 'delete of a %s through %s, which has no virtual destructor' % (dyn[:50], d.get('n')), fr, node, st)
                if d and dyn and d.get('virt') is None and False: pass
            if not ok: return [(st, ZERO)]
            return None if not arr else [(st, ZERO)]
        if name in MAKE:
            j, kind = MAKE[name]
            bad = fail(name)
            l = eng.canon(st, Engine.deref(ld(args[j]))); v = made()
            eng.write(st, l, v)
            if kind in NULLOF: eng.assume(st, cmp('!=', v, ('&', ('g', NULLOF[kind]))), True)
            eng.assume(st, cmp('!=', v, ('&', ('g', 'ompi_mpi_comm_self'))), True)
            eng.assume(st, cmp('!=', v, ZERO), True)
            self.acquire_(eng, st, fr, node, kind, v)
            return [(st, ZERO), bad]
        if name in FREE:
            l = eng.canon(st, Engine.deref(ld(args[0]))); v = eng.read(st, l); kind = FREE[name]
            self.release_(eng, st, fr, node, kind, v, name)
            eng.write(st, l, ('&', ('g', NULLOF[kind])))
            bad = fail(name)
            return [(st, ZERO), bad]
        if name == 'MPI_Free_mem': self.release_(eng, st, fr, node, 'MPI memory', ld(args[0]), name); return [(st, ZERO)]
        if name in ('malloc', 'calloc'):
            v = made(); self.acquire_(eng, st, fr, node, 'malloc', v); return [(st, v)]
        if name == 'free': self.release_(eng, st, fr, node, 'malloc', ld(args[0]), name); return [(st, ZERO)]
        if name == 'nc_open':
            bad = fail(name); eng.write(bad[0], eng.canon(bad[0], Engine.deref(ld(args[2]))), ('op', 'undef'))
            v = made(); eng.write(st, eng.canon(st, Engine.deref(ld(args[2]))), v); eng.assume(st, cmp('>=', v, ZERO), True)
            self.acquire_(eng, st, fr, node, 'netCDF file', v); return [(st, ZERO), bad]
        if name == 'nc_close': self.release_(eng, st, fr, node, 'netCDF file', ld(args[0]), name); return [(st, ZERO)]
        if name.startswith('nc_'):
            if sn == 'nc_inq_varndims': eng.write(st, eng.canon(st, Engine.deref(ld(args[2]))), C(2)); s3 = st.copy(); eng.write(s3, eng.canon(s3, Engine.deref(ld(args[2]))), C(0)); return [(st, ZERO), (s3, ZERO)]
            return [(st, ZERO), fail(name)]
        if sn == 'pthread_key_create':
            bad = fail(name); v = made(); eng.write(st, eng.canon(st, Engine.deref(ld(args[0]))), v); self.acquire_(eng, st, fr, node, 'thread key', v); return [(st, ZERO), bad]
        if sn == 'pthread_key_delete': self.release_(eng, st, fr, node, 'thread key', ld(args[0]), sn); return [(st, ZERO)]
        if sn in ('pthread_spin_init', 'pthread_mutex_init', 'pthread_cond_init'):
            self.acquire_(eng, st, fr, node, sn[:-5], ld(args[0])); return [(st, ZERO)]
        if sn in ('pthread_spin_destroy', 'pthread_mutex_destroy', 'pthread_cond_destroy') and not name.startswith('threads::Sync'):
            if any(t[0] == sn[:-8] for t in self.live(st)) or sn == 'pthread_spin_destroy': self.release_(eng, st, fr, node, sn[:-8], ld(args[0]), sn)
            return [(st, ZERO)]
        if sn == 'pthread_create':
            bad = fail(name); v = made(); eng.write(st, eng.canon(st, Engine.deref(ld(args[0]))), v); self.acquire_(eng, st, fr, node, 'thread', v); return [(st, ZERO), bad]
        if sn == 'pthread_join': self.release_(eng, st, fr, node, 'thread', ld(args[0]), sn); return [(st, ZERO)]
        if name.startswith('mpi::CommThread::') and not self.owned('mpi::CommThread::') and sn in ('registerReceiver', 'unregisterReceiver', 'send'):
            if sn == 'registerReceiver':
                l = eng.canon(st, args[2][1]); v = ('op', 'made', C('tag'), C(repr(l)), C(eng.count(st, ('tag', repr(l)))))
                bad = fail(sn)
                eng.write(st, l, v); eng.assume(st, cmp('>=', v, ZERO), True)
                self.acquire_(eng, st, fr, node, 'registration', v); return [(st, ZERO), bad]
            if sn == 'unregisterReceiver': self.release_(eng, st, fr, node, 'registration', ld(args[0]), sn)
            return [(st, ZERO)]
        if name.startswith('MPI_'):
            if name == 'MPI_Test': eng.write(st, eng.canon(st, Engine.deref(ld(args[1]))), ONE); return [(st, ZERO)]
            if name == 'MPI_Allreduce':
                l = Engine.deref(ld(args[1])); own = ld(args[0])
                own = eng.read(st, eng.canon(st, l) if own == ONE else eng.canon(st, Engine.deref(own)))
                eng.write(st, eng.canon(st, l), own if is_c(own) else eng.read(st, eng.canon(st, l)) if ld(args[0]) == ONE else ('op', 'reduced'))
            elif name in ('MPI_Comm_rank', 'MPI_Comm_size'): eng.write(st, eng.canon(st, Engine.deref(ld(args[1]))), S(name[9:]))
            elif name in ('MPI_Send', 'MPI_Ssend', 'MPI_Recv', 'MPI_Issend', 'MPI_Isend', 'MPI_Group_translate_ranks', 'MPI_Barrier') and name != 'MPI_Barrier': return [(st, ZERO)]
            return [(st, ZERO), fail(name)]
        if sn in ('createContainer', 'createStruct'):
            site = (fr.fid, node.get('i')); h = ('h', site, eng.count(st, site), 'grid::Container' if sn == 'createContainer' else 'types::Type')
            self.acquire_(eng, st, fr, node, 'new', ('&', h)); return [(st, ('&', h))]
        if name.startswith('fortran::PointerArray') and sn in ('add', 'remove') and not self.owned(name):
            if sn == 'add': v = made(); self.acquire_(eng, st, fr, node, 'Fortran handle', v); return [(st, v)]
            self.release_(eng, st, fr, node, 'Fortran handle', ld(args[0]), 'remove'); return [(st, ZERO)]
        # ---- the thread layer
        if is_agree(self.p, fr, node, name): return agree_contract(eng, st, fr, node, ld(args[0]))
        if sn == 'broadcast' and p[0] in ('numa', 'threads'):
            l = eng.canon(st, args[0][1]) if args[0][0] in ('L', 'obj') else None
            mayfail = p[0] == 'numa'
            root = (ld(args[1]) if len(args) > 1 else ZERO) if p[0] == 'numa' else (ld(args[3]) if len(args) > 3 else ZERO)
            out = []
            w = eng.decide(st, cmp('==', self.dom, root))
            okv = ZERO if mayfail else ONE
            if mayfail: out.append(fail('broadcast'))
            if w is not False:
                s = st.copy(); eng.assume(s, cmp('==', self.dom, root), True); out.append((s, okv))
            if w is not True:
                s = st.copy(); eng.assume(s, cmp('==', self.dom, root), False)
                v = ('op', 'shared', C(name), C(str((fr.fid, node.get('i')))), C(eng.count(s, (fr.fid, node.get('i')))))
                if l is not None: eng.write(s, l, v); eng.assume(s, cmp('!=', v, ZERO), True)
                out.append((s, okv))
            return out
        if p[0] == 'numa' and sn in ('domainId', 'totalDomains', 'totalThreads', 'threadId') and not self.own[0].startswith('numa::Numa::'): return [(st, self.dom if sn == 'domainId' else C(2) if sn == 'totalDomains' else S(sn))]
        if name.startswith('io::') and sn == 'getVarSize' and not self.owned(name) and self.varsize is not None: return [(st, C(self.varsize))]
        if name.startswith('io::') and sn == 'dimensions' and not self.owned(name): return [(st, C(1))]
        if self.owned(name): return None
        if name.startswith('std::') or name.startswith('__gnu') or name.startswith('operator'): return None
        g = self.p.funcs.get(node.get('fn'))
        if node['k'] == 'ctor': return [(st, None)]
        if sn == 'init' and obj is not None: self.inits.append((self.phase, fr.fn, obj, st.trace()))
        t = fr.fn['T'][node['t']] if isinstance(node.get('t'), int) and node['t'] >= 0 else ''
        if is_err_type(t): return [(st, ZERO), fail(sn)]
        if name.startswith(('log', 'utils::')): return [(st, ('op', 'log'))]
        if t in ('bool', 'const bool'): return None if g is None else [(st, ('op', 'answer', C(name)))]
        return [(st, ('op', 'result', C(name), C(str((fr.fid, node.get('i'))))))]
    def same(self, dtor, dyn):
        a = dtor.split('::~')[0].split('<')[0]; b = dyn.split('<')[0]
        return a.split('::')[-1] == b.split('::')[-1]
    def dtor(self, eng, st, fr, node, name, loc):
        r = LockClient.dtor(self, eng, st, fr, node, name, loc)
        if r is not None: return r
        if name and not self.owned(name) and not name.startswith('std::'): return [st]
        return None

def own_of(p, full):
    l = [full] + list(p.all_bases(full))
    return sorted({x.split('<')[0] + '::' for x in l})

def phases(p, rep, full, seqs, forget=False, args={}, store={}, extra=(), varsizes=(24,), budget=120000, label=None, hooks=None, domains=(ZERO, ONE), again=None, endat=None):
    """all lives of an object of class full: constructor, one of the sequences, destructor"""
    label = label or full
    own = own_of(p, full) + list(extra)
    base = full.split('<')[0]
    def named(sn): return p.method_of(full, sn.split(':')[0])
    ctors = [f for f in p.funcs.values() if f.get('clsfull', f.get('cls')) == full and f.get('kind') == 'ctor' and 'blocks' in f and not copies(f, base)]
    dtors = [f for f in p.funcs.values() if f.get('clsfull', f.get('cls')) == full and f.get('kind') == 'dtor' and 'blocks' in f]
    if not ctors or not dtors: return 0, (set(), False)
    n = 0; sites = set(); rel = False
    longest = [q for q in seqs if not any(r[:len(q)] == q and r != q for r in seqs)]
    for cf, dom in [(a, b) for a in ctors for b in domains]:
        for seq in longest:
            for vs in ([varsizes[0]], list(varsizes)) if len(varsizes) > 1 else (list(varsizes),):
                c = Life(p, own, vs[0], dom); c.hooks = hooks or {}
                def advance(states, ph, k):
                    fns = [cf] if ph == 'ctor' else dtors if ph == 'dtor' else named(ph)
                    if not fns: raise AnalysisBroken('%s has no %s' % (full, ph))
                    fn = fns[0]; c.phase = '%d:%s' % (k, ph); c.varsize = vs[min(k, len(vs) - 1)]
                    out = {}
                    for s0 in states:
                        e = LifeEngine(p, c, budget); e.forget = forget; e.sizes = SZ
                        a = [C(int(ph.split(':')[1])) if q['n'] == 'level' and ':' in ph else args.get((ph, q['n'])) for q in fn['params']] if ':' in ph or args else None
                        for s, v in e.run(fn, this=THIS, args=a, st=s0, root='#d' if ph == 'dtor' else '#%d' % k):
                            s.env = {}
                            if forget:
                                for kk in [kk for kk, vv in s.store.items() if vv in (('op', 'data'), ('op', 'undef')) or kk[0] in ('t', 'v') or locroot(kk)[0] in ('t', 'v')]: del s.store[kk]
                                for kk in [kk for kk in s.conds if "'error" in repr(kk) and "'made'" not in repr(kk)]: del s.conds[kk]
                            s.path = (s.path, (fn['file'], fn['line'], '%s returns %s' % (ph, 'success' if v == ZERO else '' if v is None else 'an error')))
                            out.setdefault((s.key(None), v == ZERO), (s, v == ZERO))
                        rep.engine(p, e)
                    if not out: raise AnalysisBroken('no life of %s gets past %s' % (full, ph))
                    return list(out.values())
                states = [State()]; res = [(states[0], False)]
                for k_, v_ in store.items(): states[0].store[k_] = v_
                done = []
                for k, ph in enumerate(['ctor'] + list(seq)):
                    # an object that was opened is not opened again
                    states = [s for s, ok in res if not (ok and again == 'failed' and k > 1)]
                    res = advance(states, ph, k - 1); states = [s for s, ok in res]
                    done.append(ph)
                    what = '%s on domain %d: %s' % (label, dom[1], ' -> '.join(done[1:]) or 'never initialised')
                    for s, _ in (advance(states, 'dtor', k) if not endat or len(done) == 1 or ph == endat else []):
                        n += 1
                        retry = done[1:] == ['open', 'open']
                        for t in c.live(s):
                            if retry and t[0] in ('new[]', 'MPI memory') and 'allocator::' in t[2][0]:
                                rep.ob('C18.reopen', '%s::open, tried again on a level whose first attempt failed after allocating' % base, False, 'the memory obtained by %s in the first attempt is lost' % t[2][0], dtors[0], trace=s.trace()); continue
                            rep.ob('C18.leak', '%s: what %s obtains by %s is released' % (what, t[2][0], t[0]), False, 'obtained at %s:%s and never released' % (t[2][1], t[2][2]), dtors[0], trace=s.trace())
                        if retry: rep.ob('C18.reopen', '%s::open, tried again on a level whose first attempt failed after allocating' % base, True, '', dtors[0])
                        for kind in {x[0] for x in c.sites} - ({'new[]', 'MPI memory'} if retry else set()): rep.ob('C18.leak', '%s: every %s is released when the object is destroyed' % (what, kind), not any(t[0] == kind for t in c.live(s)), 'still owned at the end of the life', dtors[0], trace=s.trace())
                    for kind, msg, fn, line, tr in [q for q in c.problems if q[0] == 'own']:
                        rep.ob('C18.release', '%s: resources are released once, by their owner, the way they were obtained' % what, False, msg, fn, line, tr)
                    rep.ob('C18.release', '%s: resources are released once, by their owner, the way they were obtained' % what, True, '', dtors[0])
                    c.problems = []
                sites |= set(c.fnsites); rel = rel or c.released > 0
    return n, (sites, rel)

def copies(f, base):
    ps = f['params']
    if len(ps) != 1: return False
    t = ps[0]['t'] if isinstance(ps[0]['t'], str) else f['T'][ps[0]['t']]
    return '&' in t and base.split('::')[-1] in t.split('<')[0]

LIVES = [   # classes (prefix), sequences, options
    ('types::ArrayType<', [(), ('check',), ('check', 'check')], dict(varsizes=(24, 48))),
    ('types::StructType<', [(), ('check',), ('check', 'check')], dict(varsizes=(24, 48))),
    ('types::BasicType<', [(), ('check',)], {}),
    ('cache::CacheList', [(), ('init',)], {}),
    ('cache::LRU', [(), ('init',)], {}),
    ('cache::CacheManager', [(), ('init',)], {}),
    ('io::NetCdfReader', [(), ('open',)], {}),
    ('threads::PthreadMutex', [()], {}),
    ('mpi::MPIComm', [(), ('init',), ('init', 'init')], {}),
    ('numa::Numa', [()], {}),
    ('grid::SimpleContainer<', [(), ('init:0', 'init:2', 'init:1'), ('init:2', 'init:0')], dict(store={F('m_levels', '#size'): ZERO})),
    ('grid::Grid', [(), ('initContainers',)], dict(store={F('m_containers', '#size'): ZERO}, extra=('mpi::NoMPIComm::',))),
    ('mpi::CommThread', [(), ('init', 'finialize', 'init', 'finialize'), ('init', 'registerReceiver', 'finialize', 'init', 'finialize'), ('init', 'registerReceiver', 'registerReceiver', 'eraseReceiver', 'finialize', 'finialize')],
     dict(store={('hv', F('m_receiver', '#in')): ZERO, F('m_receiver', '#size'): ZERO}, args={('eraseReceiver', 'tag'): C(0)}, endat='finialize', domains=(ZERO,))),
    ('transfer::', [(), ('init',)], dict(extra=('numa::NumaComm::', 'allocator::'))),
    ('grid::level::', [(), ('open',), ('open', 'open')], dict(forget=True, again='failed', extra=('numa::NumaComm::', 'numa::Numa::', 'allocator::'))),
]

def acquisitions(fn):
    for n in walk_nodes(fn):
        if n.get('k') == 'new': yield n
        elif n.get('k') == 'call' and n.get('n') in MAKE or n.get('n') in ('nc_open', 'malloc', 'calloc', 'pthread_key_create', 'pthread_create'): yield n

def handle(eng, st, fr, node, name, obj, args):
    """the Fortran handle of a grid stands for the grid"""
    if name.split('::')[-1] == 'c2f' and obj is not None: return [(st, ('op', 'handle of', eng.addr(obj)))]

def functions(p, rep, done):
    """functions that obtain something outside of the life of an object: they give it back, or return it"""
    sites = set(); n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f['n']):
        if 'blocks' not in f or f.get('kind') in ('ctor', 'dtor'): continue
        if all((f['file'], a.get('l')) in done for a in acquisitions(f)): continue
        c = Life(p, [f['n']]); c.hook = handle; c.nofail = not is_err_type(f.get('ret') if isinstance(f.get('ret'), str) else f['T'][f['ret']] if isinstance(f.get('ret'), int) else '');   # a function without an error code asserts that MPI succeeds
        e = LifeEngine(p, c, 120000); e.sizes = SZ; n += 1
        for s, v in e.run(f, this=THIS if not f.get('static') else None):
            left = [t for t in c.live(s) if t[1] != v and not (v is not None and v[0] == 'op' and v[1] == 'handle of' and v[2] == t[1])]
            rep.ob('C18.leak', '%s gives back (or returns) what it obtains' % f['n'], not left, 'obtained at %s and not released here' % ', '.join('%s:%s' % t[2][1:] for t in left), f, trace=s.trace())
        for kind, msg, fn, line, tr in [q for q in c.problems if q[0] == 'own']: rep.ob('C18.release', '%s releases what it obtained, once' % f['n'], False, msg, fn, line, tr)
        rep.engine(p, e); sites |= c.fnsites
    rep.floor('functions that obtain resources', n, 1)
    return sites

CLOSERS = (('asagi::Grid::close', 'grid'), ('asagi_grid_close', 'handle'), ('f90asagi_grid_close', None))

def closers(p, rep):
    """the functions that end the life of a grid for the user: each destroys exactly the grid it was given"""
    n = 0
    for name, arg in CLOSERS:
        for f in p.fns(name, False):
            if 'blocks' not in f: continue
            n += 1
            given = S('the grid'); c = Life(p, [x for x, g in CLOSERS])
            def hook(eng, st, fr, node, nm, obj, args, given=given):
                if nm.split('::')[-1] == 'f2c': return [(st, given)]
            c.hook = hook
            st = State(); st.ts = (c.held(st), (('new', given, ('the caller', f['file'], f['line'])),))
            e = LifeEngine(p, c, 20000)
            for s, v in e.run(f, args=[given if q['n'] == arg or not is_num(q, f) else None for q in f['params']], st=st):
                rep.ob('C18.leak', '%s destroys the grid' % name, not c.live(s), 'the grid is not deleted', f, trace=s.trace())
            for kind, msg, fn, line, tr in [q for q in c.problems if q[0] == 'own']: rep.ob('C18.release', '%s deletes the grid once' % name, False, msg, fn, line, tr)
            rep.engine(p, e)
    rep.floor('functions that close a grid', n, 2)

def is_num(q, f): return '*' not in (q['t'] if isinstance(q['t'], str) else f['T'][q['t']])

def inventory(p, rep, sites):
    """every place of the library that obtains something is part of an analysed life"""
    lines = {(p.funcs[i]['file'], l) for i, l in sites if i in p.funcs}
    for f in p.funcs.values():
        if 'blocks' not in f: continue
        for n in acquisitions(f):
            rep.ob('C18.all', 'what is obtained in %s belongs to an analysed life' % f['n'], (f['file'], n.get('l')) in lines, 'no analysed life reaches this %s' % (n.get('n') or 'new'), f, n.get('l'))

def nocopy(p, rep, owners):
    """objects that own something are never copied (the copy would release it a second time)"""
    own = set(owners); full = {c: d for c, d in p.classes.items()}
    ch = True
    while ch:
        ch = False
        for c, d in full.items():
            if c in own: continue
            ts = [d['T'][x['t']].replace('const ', '') for x in d['fields']] + [b if isinstance(b, str) else b.get('n', '') for b in d.get('bases', [])]
            if any(t in own or re.sub(r'\[\d+\]$', '', t).strip() in own for t in ts): own.add(c); ch = True
    m = 0
    for f in p.funcs.values():
        if 'blocks' not in f: continue
        for n in walk_nodes(f):
            t = f['T'][n['t']].replace('const ', '') if isinstance(n.get('t'), int) and n['t'] >= 0 else ''
            if n.get('k') == 'ctor' and n.get('copy') and (n.get('cls') or '') and '__' not in n['cls']:
                m += 1
                rep.ob('C18.copy', 'no object that owns a resource is copied in %s' % f['n'], t not in own, '%s is copied' % t, f, n.get('l'))
            if n.get('k') == 'call' and (n.get('n') or '').endswith('::operator='):
                cls = (n['n'][:-len('::operator=')])
                bad = any(o.split('<')[0] == cls for o in own)
                m += 1
                rep.ob('C18.copy', 'no object that owns a resource is assigned in %s' % f['n'], not bad, '%s is assigned' % cls, f, n.get('l'))
    for c, d in full.items():
        for x in d['fields']:
            t = d['T'][x['t']]; g = re.match(r'std::(vector|deque)<(?:const )?([^<>*]+(?:<.*>)?)>$', t)
            if g: rep.ob('C18.copy', 'no growing container holds resource owners by value: %s::%s' % (c.split('<')[0], x['n']), g.group(2).strip() not in own, 'a %s copies its elements when it grows' % t[:80])
    return len(own)

def run(rep):
    rep.rule('C18.release', 'a resource is released once, by the operation that matches how it was obtained, by the object and the domain that owns it')
    rep.rule('C18.reopen', 'the storage of an attempt to open a level that failed late is released when the level is opened again')
    rep.rule('C18.copy', 'objects that own resources are not copied')
    rep.rule('C18.all', 'every place that obtains a resource is covered by a life')
    rep.rule('C18.leak', 'whatever an object obtained in its life has been released when it is gone')
    tot = {}
    for cfg in (['default', 'nonuma_nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        sites = set(); owners = set()
        for pre, seqs, opt in LIVES:
            if ONLY and ONLY not in pre: continue
            fulls = sorted({f.get('clsfull', f.get('cls')) for f in p.funcs.values() if f.get('kind') == 'dtor' and (f.get('clsfull') or f.get('cls') or '').startswith(pre)})
            if TIER == 'quick' and pre in ('types::ArrayType<', 'types::StructType<'): fulls = [x for x in fulls if 'float' in x]
            for full in fulls:
                t0 = time.time()
                sq = seqs
                if not any(p.method_of(full, m) for m in ('init', 'open', 'check')): sq = [()]
                n, s = phases(p, rep, full, sq, **opt)
                if s[1]: owners.add(full)
                tot['lives'] = tot.get('lives', 0) + n; sites |= s[0]
                if DEBUG: print(full[:110], n, round(time.time() - t0, 2), flush=True)
        if not ONLY:
            sites |= functions(p, rep, {(p.funcs[i]['file'], l) for i, l in sites if i in p.funcs})
            inventory(p, rep, sites); closers(p, rep); tot['owners'] = nocopy(p, rep, owners)
    if not ONLY: rep.floor('classes that own resources', tot.get('owners', 0), 10)
    rep.floor('lives', tot.get('lives', 0), 0 if ONLY else 100)
import os
DEBUG = os.environ.get('D18'); ONLY = os.environ.get('O18')
