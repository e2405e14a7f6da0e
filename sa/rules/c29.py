"""C29: what initialisation stores and what the transfer then copies, composed."""
from ..query import *
from ..xfer import *

TR = 'transfer::'
BS = mul(S('typeSize'), S('blockSize'))          # one whole block in bytes

def roles(fn, names):
    """argument values by parameter position"""
    return [names.get(i) for i in range(len(fn['params']))]

def inits(p, cls, args, rep, store=None):
    """distinct successful initialisations: [(store of the object, events, state)]"""
    out = {}
    for fn in p.fns(TR + cls + '::init', required=False):
        a = args(fn)
        if a is None: continue
        for ev, held, s, v in paths(p, fn, rep, store=store, args=a, client=InitClient(p)):
            if v != ZERO: continue
            st = {k: y for k, y in s.store.items() if under(k, THISLOC)}
            ev = tuple(e for e in ev if e[0] not in ('lock', 'unlock', 'bcast'))
            out[(tuple(sorted(st.items(), key=repr)), ev)] = (st, ev, s, fn)
    return list(out.values())

def byparam(fn):
    """roles of the parameters of an init function by type and order"""
    out = []; ul = 0
    kinds = [fn['T'][q['t']].replace('const ', '') for q in fn['params']]
    nul = kinds.count('unsigned long')
    for k, q in zip(kinds, fn['params']):
        if k.startswith('unsigned char'): out.append(S('data'))
        elif k == 'unsigned int': out.append(S('cacheSize'))
        elif k == 'unsigned long':
            ul += 1
            out.append(S('blockCount') if nul == 2 and ul == 1 else S('blockSize'))
        else: out.append(None)
    return out

class Xf(InitClient): pass

def numa_full(rep, p, cls):
    n = 0
    data, own = S('data'), S('domainId')
    for st, ev, s0, fi in inits(p, cls, byparam, rep):
        for fn in p.fns(TR + cls + '::transfer'):
            if len(fn['params']) != 5: continue
            for ev2, h, s, v in paths(p, fn, rep, store=st, client=Xf(p), args=[None, None, None, None, S('slot')]):
                cp = [e for e in ev2 if e[0] == 'memcpy']
                own_rank = Engine(p, Client()).decide(s, cmp('==', P(fn, 1), S('mpirank')))
                tg = [e for e in ev2 if e[0] == 'tryget']
                if tg: continue          # the copy from another cache is checked with NumaCache
                n += 1; tr = s.trace()
                def ob(what, ok, msg): rep.ob('C29.numafull', '%s: %s' % (cls, what), ok, msg, fn, trace=tr)
                if v == ONE:
                    ob('success only for blocks of the own rank', own_rank is True, 'reports success for a block of any rank')
                    ob('success means one block was copied', len(cp) == 1, '%d copies' % len(cp))
                if v == ZERO: ob('blocks of the own rank are always supplied', own_rank is not True, 'fails although the block is on the same rank')
                want = add(data, ZERO)
                for c in cp:
                    b, o = ptr(c[2])
                    w = mul(BS, add(mul(S('blockCount'), sub(P(fn, 2), own)), P(fn, 3)))
                    ob('the copy comes from the home of the block', b == data and same(o, w), 'copies from %s + %s, home is at %s' % (show(b), show(o), show(w)))
                    ob('the copy goes to the slot', c[1] == S('slot'), 'copies to %s' % show(c[1]))
                    ob('a whole block is copied', c[3] == BS, 'copies %s bytes' % show(c[3]))
    return n

def numa_cache(rep, p, cls):
    """3 domains, own domain 1: every other domain is searched, nothing else"""
    n = 0
    for own in (0, 1, 2):
        ND = 3
        def a(fn): return byparam(fn)
        class IC(InitClient):
            def special(self, eng, st, fr, node, name, obj, args):
                if name.startswith('numa::') and name.endswith('::domainId'): return [(st, C(own))]
                if name.startswith('numa::') and name.endswith('::totalDomains'): return [(st, C(ND))]
                return InitClient.special(self, eng, st, fr, node, name, obj, args)
        sts = {}
        for fi in p.fns(TR + cls + '::init'):
            for ev, held, s, v in paths(p, fi, rep, args=byparam(fi), client=IC(p)):
                if v != ZERO: continue
                st = {k: y for k, y in s.store.items() if under(k, THISLOC)}
                # the broadcast makes the table of domain 0 the table of all; own entry
                tab = [k for k, y in s.store.items() if locroot(k)[0] not in ('v', 't') and y in (('&', ('d', S('cacheManager'))), S('cacheManager'))]
                tf = [f['n'] for c in p.classes.values() if c['n'] == TR + 'NumaCache' for f in c['fields'] if 'CacheManager **' in c_type(c, f)]
                ok = bool(tf) and any(k == at(s.store.get(F(tf[0]), ('i', F(tf[0]))), own) for k in tab)
                rep.ob('C29.table', '%s: each domain enters its own cache' % cls, ok, 'the cache manager of domain %d is stored in %s' % (own, [showloc(k) for k in tab]), fi, trace=s.trace())
                bc = [showloc(e[1]) for e in ev if e[0] == 'bcast']
                sts[tuple(sorted(((k, y) for k, y in st.items() if y[0] == 'c' or not is_ptrfield(p, k)), key=repr))] = fi
        tabfield = [f['n'] for c in p.classes.values() if c['n'] == TR + 'NumaCache' for f in c['fields'] if 'CacheManager **' in c_type(c, f)]
        if not tabfield: raise AnalysisBroken('NumaCache: table of cache managers not found')
        for k in sts:
            st = dict(k)
            base = F(tabfield[0])
            st[base] = S('table')
            for d in range(ND): st[at(S('table'), d)] = S('cache%d' % d)
            for fn in p.fns(TR + cls + '::transfer'):
                if len(fn['params']) == 5 and cls == 'NumaFullCache': args = [None, S('otherRank'), None, None, S('slot')]
                elif len(fn['params']) == 2: args = [None, S('slot')]
                elif len(fn['params']) == 5: args = [None, None, None, None, S('slot')]
                else: continue
                for ev, h, s, v in paths(p, fn, rep, store=st, args=args, client=Xf(p)):
                    if cls == 'NumaFullCache' and not any(e[0] in ('tryget', 'trymiss') for e in ev): continue
                    n += 1; tr = s.trace()
                    def ob(what, ok, msg): rep.ob('C29.numacache', '%s: %s' % (cls, what), ok, msg, fn, trace=tr)
                    tried = [e[1] for e in ev if e[0] in ('tryget', 'trymiss')]
                    want = [('d', S('cache%d' % d)) for d in range(ND) if d != own]
                    got = [e for e in ev if e[0] == 'tryget']
                    names = [showloc(x) for x in tried]
                    ob('the own cache is not searched', ('d', S('cache%d' % own)) not in tried, 'domain %d searches %s' % (own, names))
                    if not got: ob('every other domain is searched', sorted(tried) == sorted(want), 'domain %d searches %s' % (own, names))
                    for e in [e for e in ev if e[0] in ('tryget', 'trymiss')]: ob('the requested block is searched', e[2] == P(fn, 0), 'searches %s' % show(e[2]))
                    cp = [e for e in ev if e[0] == 'memcpy']
                    ob('success exactly after a copy', (v == ONE) == (len(cp) == 1) and len(cp) == len(got), 'returns %s after %d copies' % (show(v), len(cp)))
                    for c in cp:
                        if not got: break
                        ob('the copy comes from the slot found', c[2] == ('op', 'slotdata', C(got[-1][3])), 'copies from %s' % show(c[2]))
                        ob('the copy goes to the slot', c[1] == S('slot'), 'copies to %s' % show(c[1]))
                        ob('a whole block is copied', c[3] == BS, 'copies %s bytes' % show(c[3]))
    return n

def at(v, i):
    """location of element i behind pointer value v"""
    l = Engine.deref(v)
    if l[0] == 'e': return l if i == 0 else ('e', l[1], add(l[2], C(i)))
    return l if i == 0 else ('e', l, C(i))

def c_type(c, f):
    t = f.get('t')
    return c['T'][t] if isinstance(t, int) and 'T' in c else str(t)
def field_type(p, cls, name):
    for c in p.classes.values():
        if c['n'] == cls:
            for f in c['fields']:
                if f['n'] == name: return c_type(c, f)
    return ''
def is_ptrfield(p, k): return k[0] == 'f' and '*' in (field_type(p, TR + 'NumaCache', k[2]) or '')

def whole(rep, p, cls, fn, w, e, i_n, i_t, tr):
    """element count and type of an MPI transfer = one block"""
    rep.ob('C29.mpi', w + ': a whole block is transferred', e[2][i_n] == S('blockSize') and e[2][i_t] == S('mpiType'), 'transfers %s x %s' % (show(e[2][i_n]), show(e[2][i_t])), fn, trace=tr)

def thread_full(rep, p, cls):
    n = 0
    for st, ev, s0, fi in inits(p, cls, byparam, rep):
        for fn in p.fns(TR + cls + '::transfer'):
            for ev2, h, s, v in paths(p, fn, rep, store=st, args=[None, None, S('slot')], client=Xf(p)):
                n += 1; tr = s.trace(); w = cls + '::transfer'
                snd = [e for e in ev2 if e[0] == 'send']; rcv = [e for e in ev2 if e[0] == 'MPI' and e[1] in ('MPI_Recv', 'MPI_Irecv')]
                rep.ob('C29.mpi', w + ': the request names the block', len(snd) == 1 and snd[0][3] == P(fn, 1) and snd[0][2] == P(fn, 0), 'sends %s' % [[show(x) for x in y[1:]] for y in snd], fn, trace=tr)
                rep.ob('C29.mpi', w + ': one block is received', len(rcv) == 1, '%d messages' % len(rcv), fn, trace=tr)
                for e in rcv:
                    rep.ob('C29.mpi', w + ': received into the slot', e[2][0] == S('slot') and e[2][3] == P(fn, 0), 'received into %s from %s' % (show(e[2][0]), show(e[2][3])), fn, trace=tr)
                    whole(rep, p, cls, fn, w, e, 1, 2, tr)
        for fn in p.fns(TR + cls + '::recv'):
            for ev2, h, s, v in paths(p, fn, rep, store=st, client=Xf(p)):
                n += 1; tr = s.trace(); w = cls + '::recv'
                snd = [e for e in ev2 if e[0] == 'MPI' and e[1] in ('MPI_Send', 'MPI_Isend', 'MPI_Ssend')]
                rep.ob('C29.mpi', w + ': one reply', len(snd) == 1, '%d replies' % len(snd), fn, trace=tr)
                for e in snd:
                    b, o = ptr(e[2][0])
                    rep.ob('C29.mpi', w + ': sends the requested block', b == S('data') and same(o, mul(BS, P(fn, 1))), 'sends from %s + %s' % (show(b), show(o)), fn, trace=tr)
                    rep.ob('C29.mpi', w + ': answers the requester', e[2][3] == P(fn, 0), 'sent to %s' % show(e[2][3]), fn, trace=tr)
                    whole(rep, p, cls, fn, w, e, 1, 2, tr)
    return n

def window(rep, p, cls, fi, ev, tr, winlocs, base, bytes_, unit, what):
    """the creation of the window that the transfers read: base, size, displacement unit"""
    cr = [e for e in ev if e[0] == 'MPI' and e[1] == 'MPI_Win_create' and e[2][0] == base]
    rep.ob('C29.window', '%s: the window of the %s' % (cls, what), len(cr) == 1, '%d windows are created over %s' % (len(cr), show(base)), fi, trace=tr)
    for e in cr:
        rep.ob('C29.window', '%s: the window covers the %s of all domains' % (cls, what), same(e[2][1], bytes_), 'size %s, needed %s' % (show(e[2][1]), show(bytes_)), fi, trace=tr)
        rep.ob('C29.window', '%s: displacement unit of the %s' % (cls, what), e[2][2] == unit, 'unit %s, readers use %s' % (show(e[2][2]), show(unit)), fi, trace=tr)
        rep.ob('C29.window', '%s: communicator of the %s' % (cls, what), e[2][4] == S('comm'), 'created on %s' % show(e[2][4]), fi, trace=tr)
    return [e[2][5] for e in cr]

def win_full(rep, p, cls):
    n = 0
    own = None
    for st, ev, s0, fi in inits(p, cls, byparam, rep):
        if any(e[0] == 'MPI' for e in ev):
            own = window(rep, p, cls, fi, ev, s0.trace(), None, S('data'), mul(mul(BS, S('blockCount')), S('totalDomains')), S('typeSize'), 'blocks')
    rep.ob('C29.window', '%s: a window is created' % cls, bool(own), 'no window', p.fns(TR + cls + '::init')[0])
    for st, ev, s0, fi in inits(p, cls, byparam, rep):
        for fn in p.fns(TR + cls + '::transfer'):
            for ev2, h, s, v in paths(p, fn, rep, store=st, args=[None, None, S('slot')], client=Xf(p)):
                n += 1
                get_ob(rep, p, cls, fn, ev2, s, P(fn, 0), mul(P(fn, 1), S('blockSize')), own)
    return n

def get_ob(rep, p, cls, fn, ev2, s, rank, disp, win):
    tr = s.trace(); w = cls + '::transfer'
    g = [e for e in ev2 if e[0] == 'MPI' and e[1] in ('MPI_Get', 'MPI_Rget')]
    rep.ob('C29.mpi', w + ': one block is read', len(g) == 1, '%d reads' % len(g), fn, trace=tr)
    for e in g:
        a = e[2]
        rep.ob('C29.mpi', w + ': read into the slot', a[0] == S('slot'), 'read into %s' % show(a[0]), fn, trace=tr)
        whole(rep, p, cls, fn, w, e, 1, 2, tr); whole(rep, p, cls, fn, w + ' (target)', e, 5, 6, tr)
        rep.ob('C29.mpi', w + ': read from the home rank', same(a[3], rank), 'read from rank %s' % show(a[3]), fn, trace=tr)
        rep.ob('C29.mpi', w + ': read from the position of the block', same(a[4], disp), 'displacement %s, expected %s' % (show(a[4]), show(disp)), fn, trace=tr)
        if win: rep.ob('C29.mpi', w + ': read through the window of the blocks', a[7] == ('i', Engine.deref(win[0])) or a[7] == winval(p, s, win[0]), 'uses window %s' % show(a[7]), fn, trace=tr)

def winval(p, s, addr):
    return Engine(p, Client()).read(s, Engine.deref(addr))

def win_cache(rep, p, cls):
    n = 0; own = None
    rcs = mul(S('cacheSize'), S('totalDomains'))
    ini = inits(p, cls, byparam, rep)
    for st, ev, s0, fi in ini:
        if any(e[0] == 'MPI' for e in ev):
            own = window(rep, p, cls, fi, ev, s0.trace(), None, S('data'), mul(BS, rcs), S('typeSize'), 'cache')
    rep.ob('C29.window', '%s: a window is created' % cls, bool(own), 'no window', p.fns(TR + cls + '::init')[0])
    for st, ev, s0, fi in ini:
        for fn in p.fns(TR + cls + '::transfer'):
            for ev2, h, s, v in paths(p, fn, rep, store=st, args=[None, None, S('slot'), None], client=Xf(p)):
                if v != ONE: continue
                n += 1
                rank = binop('/', P(fn, 0), rcs); off = binop('%', P(fn, 0), rcs)
                cp = [e for e in ev2 if e[0] == 'memcpy']
                tr = s.trace(); w = cls + '::transfer'
                local = Engine(p, Client()).decide(s, cmp('==', rank, S('mpirank')))
                if cp:
                    rep.ob('C29.mpi', w + ': local copies only for the own rank', local is True, 'copies locally although the block may be remote', fn, trace=tr)
                    for c in cp:
                        b, o = ptr(c[2])
                        rep.ob('C29.mpi', w + ': the copy comes from the cache position found', b == S('data') and same(o, mul(off, BS)), 'copies from %s + %s' % (show(b), show(o)), fn, trace=tr)
                        rep.ob('C29.mpi', w + ': a whole block is copied', c[3] == BS and c[1] == S('slot'), 'copies %s bytes to %s' % (show(c[3]), show(c[1])), fn, trace=tr)
                else: get_ob(rep, p, cls, fn, ev2, s, rank, mul(off, S('blockSize')), own)
        # the base of the local cache is the one of domain 0 (covers all domains)
    for fi in p.fns(TR + cls + '::init'):
        for ev, held, s, v in paths(p, fi, rep, args=byparam(fi), client=InitClient(p)):
            if v != ZERO: continue
            cf = [f['n'] for c in p.classes.values() if c['n'] == TR + cls for f in c['fields'] if c_type(c, f) == 'unsigned char *']
            bc = [i for i, e in enumerate(ev) if e[0] == 'bcast' and e[1][0] == 'f' and e[1][2] in cf]
            rep.ob('C29.base', '%s: all domains use the cache of the whole process' % cls, bool(bc), 'the cache base is not shared', fi, trace=s.trace())
    return n

def thread_cache(rep, p, cls):
    n = 0
    rcs = mul(S('cacheSize'), S('totalDomains'))
    for st, ev, s0, fi in inits(p, cls, byparam, rep):
        for fn in p.fns(TR + cls + '::transfer'):
            for ev2, h, s, v in paths(p, fn, rep, store=st, args=[None, None, S('slot'), None], client=Xf(p)):
                if not any(e[0] == 'send' for e in ev2): continue
                n += 1; tr = s.trace(); w = cls + '::transfer'
                rank = binop('/', P(fn, 0), rcs)
                snd = [e for e in ev2 if e[0] == 'send']
                rep.ob('C29.mpi', w + ': the request names rank and block', all(e[2] == rank and e[3] == P(fn, 1) for e in snd), 'sends %s' % [[show(x) for x in y[1:]] for y in snd], fn, trace=tr)
                for e in ev2:
                    if e[0] == 'MPI' and e[1] in ('MPI_Recv',) and ptr(e[2][0])[0] == S('slot'):
                        rep.ob('C29.mpi', w + ': received into the slot from the rank asked', e[2][0] == S('slot') and e[2][3] == rank, 'received into %s from %s' % (show(e[2][0]), show(e[2][3])), fn, trace=tr)
                        whole(rep, p, cls, fn, w, e, 1, 2, tr)
        bt = [f for f in p.fns(TR + cls + '::BlockTransferer::recv', required=False)]
        for fn in bt:
            # the responder belongs to the object: substitute its parent
            par = [f['n'] for c in p.classes.values() if c['n'] == TR + cls + '::BlockTransferer' for f in c['fields']]
            st2 = {}
            own = F(par[0]) if par else None
            st2[own] = S('owner')
            for k, y in st.items():
                st2[rebase(k, THISLOC, ('d', S('owner')))] = y
            for ev2, h, s, v in paths(p, fn, rep, store=st2, client=Xf(p)):
                got = [e for e in ev2 if e[0] == 'tryget']
                snd = [e for e in ev2 if e[0] == 'MPI' and e[1] in ('MPI_Isend', 'MPI_Send', 'MPI_Ssend')]
                n += 1; tr = s.trace(); w = cls + '::BlockTransferer'
                for e in ev2:
                    if e[0] in ('tryget', 'trymiss'): rep.ob('C29.mpi', w + ': searches the requested block', e[2] == P(fn, 1), 'searches %s' % show(e[2]), fn, trace=tr)
                if got:
                    rep.ob('C29.mpi', w + ': sends the block found', len(snd) == 1 and snd[0][2][0] == ('op', 'slotdata', C(got[-1][3])), 'sends %s' % [show(e[2][0]) for e in snd], fn, trace=tr)
                    for e in snd:
                        whole(rep, p, cls, fn, w, e, 1, 2, tr)
                        rep.ob('C29.mpi', w + ': answers the requester', e[2][3] == P(fn, 0), 'sent to %s' % show(e[2][3]), fn, trace=tr)
    return n

def opened(rep, p):
    """what the storage classes hand to their transfers and caches when they are opened"""
    n = 0
    role = {'unsigned long': ['localBlockCount', 'blockSize']}
    for cls in ('FullDist', 'CacheDist', 'Cache'):
        for fn in p.fns('grid::level::%s::open' % cls):
            ui = [i for i, q in enumerate(fn['params']) if fn['T'][q['t']] == 'unsigned int']
            if not ui: raise AnalysisBroken('%s::open has no cache size' % cls)
            csize = P(fn, ui[-1])
            w = short(fn['clsfull']) + '::open'
            for ev, h, s, v in paths(p, fn, rep, client=OpenClient(p)):
                tr = s.trace(); n += 1
                def ob(what, ok, msg): rep.ob('C29.open', w + ': ' + what, ok, msg, fn, trace=tr)
                mem = None; cman = None
                for e in ev:
                    if e[0] == 'alloc':
                        k = sum(1 for x in ev[:ev.index(e)] if x[0] == 'alloc')
                        ob('memory for all cache slots', e[3] == mul(BS, csize), 'allocates %s bytes for %s slots' % (show(e[3]), show(csize))); mem = ('op', 'memory', C(k))
                    if e[0] == 'cinit':
                        cman = e[1]
                        ob('the cache manager gets the memory, the number of slots and the size of a block', e[2:5] == (mem, csize, BS), 'gets %s' % [show(x) for x in e[2:5]])
                    if e[0] == 'tinit':
                        got = {}
                        for fi in [x for x in p.fns('transfer::%s::init' % e[1]) if len(x['params']) == len(e) - 2][:1]:
                            for q, x in zip(fi['params'], e[2:]): got.setdefault(fi['T'][q['t']].replace('const ', ''), []).append(x)
                        u = got.get('unsigned long', [])
                        bs = [S('localBlockCount'), S('blockSize')] if len(u) == 2 else [S('blockSize')]
                        ob('%s gets the blocks per domain and the block size' % e[1], u == bs, 'gets %s' % [show(x) for x in u])
                        for x in got.get('unsigned int', []): ob('%s gets the number of cache slots' % e[1], x == csize, 'gets %s' % show(x))
                        for t, xs in got.items():
                            if t.startswith('unsigned char'):
                                want = ('i', F('m_data')) if cls == 'FullDist' else ('i', F('m_cache'))
                                ok = all(memory_of(p, fn, x, cls) for x in xs)
                                ob('%s gets the memory of the level' % e[1], ok, 'gets %s' % [show(x) for x in xs])
                            if 'CacheManager' in t and cman is not None:
                                ob('%s gets the cache manager of the level' % e[1], all(x[:2] == ('loc', cman) or Engine.deref(x) == cman if x[0] != 'loc' else x[1] == cman for x in xs), 'gets %s' % [showloc(x[1]) for x in xs])
    return n

def memory_of(p, fn, x, cls):
    """the storage that the base class allocated (the field its open() fills)"""
    base = 'Full' if cls == 'FullDist' else 'Cache'
    for f in p.fns('grid::level::%s::open' % base)[:1]:
        if x[0] == 'i' and x[1][0] == 'f' and x[1][1] == THISLOC:
            key = (id(p), base)
            if key not in _mem:
                class Z(OpenClient):
                    def special(self, eng, st, fr, node, name, obj, args):
                        if name.startswith('grid::level::') and name.endswith('::localBlockCount'): return [(st, ZERO)]
                        return OpenClient.special(self, eng, st, fr, node, name, obj, args)
                _mem[key] = set(e[2] for ev, h, s, v in paths(p, f, client=Z(p)) for e in ev if e[0] == 'alloc')
            return x[1] in _mem[key]
    return False
_mem = {}

def rebase(l, a, b):
    if l == a: return b
    if l[0] in ('f', 'e'): return (l[0], rebase(l[1], a, b)) + l[2:]
    if l[0] in ('hv', 'al', 'zero'): return (l[0], rebase(l[1], a, b)) + l[2:]
    return l

def run(rep):
    rep.rule('C29.numafull', 'the copy source equals data + blockSize*typeSize*(blocks per domain*(home domain - own domain) + home offset), length one block, for the own rank only')
    rep.rule('C29.numacache', 'every other domain is searched; a block found is copied whole from the slot found')
    rep.rule('C29.mpi', 'remote reads name rank, displacement, count and type of exactly one block; replies send the block asked for to the one who asked')
    rep.rule('C29.window', 'windows cover the memory of all domains with the displacement unit the readers use')
    rep.rule('C29.open', 'opening passes blocks per domain, block size, memory and cache of the level to its transfers')
    n = 0
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        for cls in ('NumaFull', 'NumaFullCache'): n += numa_full(rep, p, cls)
        for cls in ('NumaCache', 'NumaFullCache'): n += numa_cache(rep, p, cls)
        for cls, f in (('MPIThreadFull', thread_full), ('MPIWinFull', win_full), ('MPIWinCache', win_cache), ('MPIThreadCache', thread_cache)):
            if not p.by_name.get(TR + cls + '::init') or not p.by_name.get(TR + cls + '::transfer'): continue
            n += f(rep, p, cls)
        n += opened(rep, p)
    rep.floor('transfer paths composed with their initialisation', n, 20)
