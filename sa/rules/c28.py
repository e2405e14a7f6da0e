"""C28: indices stay inside their arrays. The number of dimensions is bounded by a build constant, so every supported number is propagated
as a constant through open and query code; levels, threads and domains are bounded by linear reasoning over path conditions."""
from .c22 import *
from .c09 import subterms
from ..locks import *
from ..bounds import Facts
from .c16 import RD

DOMS, DOM, THRS, THR = ('op', 'totalDomains'), ('op', 'domainId'), ('op', 'totalThreads'), ('op', 'threadId')
NAT = (DOMS, DOM, THRS, THR)

def fieldsizes(p):
    """extent of the members that are arrays of a constant size; None if two classes disagree"""
    out = {}
    for c in p.classes.values():
        for f in c['fields']:
            t = c['T'][f['t']]
            m = re.search(r'\[(\d+)\]$', t) if not re.search(r'\[\d+\]\[', t) else re.search(r'\[(\d+)\]\[', t)
            if m: out.setdefault(f['n'], set()).add(int(m.group(1)))
    return out

def vartypes(f):
    for b in f.get('blocks') or ():
        for n in b['e']:
            if n.get('k') == 'decl':
                for v in n['v']:
                    if isinstance(v.get('t'), int): yield v['d'], f['T'][v['t']]
    for q in f['params']: yield q['d'], f['T'][q['t']]

def upcounters(p):
    """local variables that are set to zero once and incremented by one otherwise: {variable: heads of loops that end when it equals something}"""
    out = {}
    for f in p.funcs.values():
        if not f.get('blocks'): continue
        zero = set(); bad = set()
        els = {e['i']: e for b in f['blocks'] for e in b['e'] if 'i' in e}
        def ref(x):
            while isinstance(x, dict) and ('r' in x and 'k' not in x or x.get('k') in ('cast', 'pass', 'paren')):
                x = els.get(x['r']) if 'r' in x and 'k' not in x else x.get('e')
            return x.get('d') if isinstance(x, dict) and x.get('k') == 'ref' else None
        for b in f['blocks']:
            for n in b['e']:
                if n.get('k') == 'decl':
                    for v in n['v']:
                        x = v.get('init')
                        while isinstance(x, dict) and ('r' in x and 'k' not in x or x.get('k') in ('cast', 'pass', 'paren')): x = els.get(x['r']) if 'r' in x and 'k' not in x else x.get('e')
                        if isinstance(x, dict) and x.get('k') == 'int' and x.get('v') == 0: zero.add(v['d'])
        for n in walk_nodes(f):
            if n.get('k') == 'un' and n.get('op') in ('--', '&'): bad.add(ref(n['e']))
            if n.get('k') == 'asg': bad.add(ref(n['a']))
            if n.get('k') in ('call', 'ctor'):
                for a in n.get('args') or ():
                    bad.add(ref(a)) if isinstance(a, dict) and a.get('k') == 'ref' else None
        for d in zero - bad:
            out[d] = set()
            for b in f['blocks']:
                c = (b.get('t') or {}).get('c')
                while isinstance(c, dict) and ('r' in c and 'k' not in c or c.get('k') in ('cast', 'pass', 'paren')): c = els.get(c['r']) if 'r' in c and 'k' not in c else c.get('e')
                if isinstance(c, dict) and c.get('k') == 'bin' and c.get('op') == '!=' and d in (ref(c['a']), ref(c['b'])): out[d].add(b['id'])
    return out

def varsizes(p):
    out = {}
    for f in p.funcs.values():
        for d, t in vartypes(f):
            m = re.search(r'^[^\[]*?\[(\d+)\]', t)
            if m: out[d] = int(m.group(1))
    return out

class BndClient(Client):
    """every access to an element of an array whose extent is known is an obligation"""
    def __init__(self, p, rep, fn, what, params=None, lens=None, base=()):
        self.p = p; self.rep = rep; self.fn = fn; self.what = what; self.params = params or {}; self.lens = lens or {}
        k = ('bnd', id(p))
        if k not in _cache: _cache[k] = (fieldsizes(p), varsizes(p))
        self.fs, self.vs = _cache[k]
        self.base = base; self.heap = {}; self.seen = 0; self.allocs = []
    def keep_sym(self, s): return True
    def ts_syms(self, ts): return set()
    def ev(self, st, *e):
        if e not in (st.ts or ()): st.ts = (st.ts or ()) + (e,)
    def alloc(self, eng, st, fr, node, loc, n):
        if n is not None: self.heap[loc] = n
        self.allocs.append((loc, n, fr.fn))
        self.ev(st, 'alloc', loc, n)
    def extent(self, eng, st, b):
        """number of elements of an array object, or None"""
        if b in self.heap: return self.heap[b]
        if b in self.lens: return self.lens[b]
        if b[0] == 'v':
            s = self.vs.get(b[2]); return C(s) if s is not None else None
        if b[0] == 'f' and b[2] in self.fs and len(self.fs[b[2]]) == 1: return C(next(iter(self.fs[b[2]])))
        if b[0] == 'd':
            v = b[1]
            if v in self.lens: return self.lens[v]
            if v[0] == '&' and v[1][0] == 'e' and v[1][2] == ZERO: return self.extent(eng, st, v[1][1])
        if b[0] == 'f' and isinstance(b[2], str):
            z = eng.read(st, ('f', b, '#size'))
            if z != ('i', ('f', b, '#size')) or b in self.lens or self.isvec(b): return z
        return None
    def counts(self, f, st, i, ext):
        """a variable that starts at zero and only grows by one is below a bound it is compared to by != (if the bound does not change)"""
        for a in syms(i):
            if a[0] != 'phi' or a[3][0] != 'v': continue
            d = a[3][2]; k = ('up', id(self.p))
            if k not in _cache: _cache[k] = upcounters(self.p)
            if a[2] not in _cache[k].get(d, ()): continue
            for c, v in st.conds.items():
                if v is False and c[0] == 'op' and c[1] == '==' and a in c[2:]:
                    o = c[3] if c[2] == a else c[2]
                    if o == ext: f.add_lt(a, o)
    def known(self, f):
        for x in self.base: f.add_lt(*x)
        for x in NAT: f.add_le(ZERO, x)
    def isvec(self, b):
        for c in self.p.classes.values():
            for f in c['fields']:
                if f['n'] == b[2] and 'std::vector<' in c['T'][f['t']]: return True
        return False
    def check(self, eng, st, fr, node, loc, how):
        i = None
        if loc[0] == 'd' and (loc[1] in self.lens or loc in self.lens): b, i = loc, ZERO
        else:
            l = loc
            while isinstance(l, tuple) and l and l[0] in ('f', 'e'):
                if l[0] == 'e' and not (l[1][0] == 'f' and isinstance(l[1][2], str) and (l[1][2].startswith('#') or self.isvec(l[1]))): self.one(eng, st, fr, node, l[1], l[2], how)
                if l[0] == 'f' and isinstance(l[2], str) and l[2].startswith('#'): return
                l = l[1]
            return
        self.one(eng, st, fr, node, b, i, how)
    def one(self, eng, st, fr, node, b, i, how):
        n = self.extent(eng, st, b)
        if n is None: return
        self.seen += 1
        if is_num(i) and is_num(n): ok = 0 <= i[1] < n[1]
        else:
            f = Facts(st.conds, signed=lambda a: self.signed(a))
            self.known(f); self.counts(f, st, i, n)
            ok = f.below(i, n)
        fn = fr.fn if fr is not None else self.fn
        self.rep.ob('C28.inside', '%s: %s is %s inside' % (self.what, self.bname(b), how), ok, 'element %s of %s' % (show(i), show(n)), fn, node.get('l') if isinstance(node, dict) else None, st.trace())
    def signed(self, a):
        if a in NAT or a[0] == 'op' and a[1] in ('sizeof', 'count', 'size', 'u32'): return False
        if a[0] == 'i' and a[1][0] == 'f' and a[1][2] == '#size': return False
        if a[0] == 'phi': return self.sloc(a[3]) if len(a) > 3 else True
        if a[0] == 'i': return self.sloc(a[1])
        return True
    def sloc(self, l):
        """may the variable be negative?"""
        return not re.match(r'(const )?(unsigned|size_t|uint|std::size_t)', self.ltype(l))
    def ltype(self, l):
        t = ''
        if l[0] == 'v':
            k = ('vt', id(self.p))
            if k not in _cache:
                d = {}
                for f in self.p.funcs.values():
                    d.update(vartypes(f))
                _cache[k] = d
            t = _cache[k].get(l[2], '')
        elif l[0] == 'p': t = self.params.get(l[1], '')
        elif l[0] == 'f':
            t = next((c['T'][f['t']] for c in self.p.classes.values() for f in c['fields'] if f['n'] == l[2]), '')
        return t
    def bname(self, b):
        if b[0] == 'v':
            return b[2].split(':')[1] if b[2].count(':') else str(b[2])
        if b[0] == 'f': return str(b[2])
        if b[0] == 'd': return showloc(b[1][1]) if b[1][0] == 'i' else show(b[1])
        return 'the memory allocated'
    def read(self, eng, st, fr, node, loc): self.check(eng, st, fr, node, loc, 'read')
    def write(self, eng, st, fr, node, loc, val):
        self.check(eng, st, fr, node, loc, 'written')
        if perdim(loc): self.ev(st, 'write', loc[:2])
    def whole(self, eng, st, fr, node, v, need, what):
        """an array handed to a function that uses its first `need` elements"""
        if v is None or v == ZERO: return
        b = eng.canon(st, Engine.deref(v))
        o = ZERO
        if b[0] == 'e': b, o = b[1], b[2]
        n = self.extent(eng, st, b)
        if n is None: return
        self.seen += 1
        if is_num(n) and is_num(o) and is_num(need): ok = o[1] + need[1] <= n[1]
        else:
            f = Facts(st.conds, signed=lambda a: self.signed(a))
            self.known(f)
            ok = f.prove(sub(sub(n, o), need))
        self.rep.ob('C28.inside', '%s: %s has room for %s' % (self.what, self.bname(b), what), ok, '%s elements are used, it has %s' % (show(need), show(sub(n, o))), fr.fn, node.get('l'), st.trace())
    nd = ONE
    def call(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]
        if name.startswith(('numa::Numa::', 'numa::NumaComm::', 'numa::NoNuma::')):
            for nm, t in (('totalDomains', DOMS), ('domainId', DOM), ('totalThreads', THRS), ('threadId', THR)):
                if sn == nm: return [(st, t)]
        if name.startswith('std::fill_n') and len(args) == 3:
            a = [eng.load(st, x, fr, node) for x in args]
            self.whole(eng, st, fr, node, a[0], a[1], 'the elements filled')
        if name.startswith('std::vector::') and sn in ('operator[]', 'at') and obj is not None:
            self.one(eng, st, fr, node, eng.canon(st, obj), eng.load(st, args[0], fr, node), 'accessed')
        if name.startswith('nc_'): return self.netcdf(eng, st, fr, node, name, [eng.load(st, x, fr, node) if x is not None else None for x in args])
        return self.more(eng, st, fr, node, name, obj, args)
    def more(self, eng, st, fr, node, name, obj, args): return None
    def netcdf(self, eng, st, fr, node, name, a):
        w = lambda v, x: eng.write(st, eng.canon(st, Engine.deref(v)), x)
        site = (fr.fid, node.get('i'))
        if name == 'nc_inq_varndims': w(a[2], self.nd); return [(st, ZERO)]
        if name == 'nc_inq_var':
            if a[4] is not None and a[4] != ZERO: w(a[4], self.nd)
            self.whole(eng, st, fr, node, a[5], self.nd, 'the identifiers of all dimensions'); return [(st, ZERO)]
        if name == 'nc_inq_vardimid':
            self.whole(eng, st, fr, node, a[2], self.nd, 'the identifiers of all dimensions'); self.ev(st, 'perdim'); return [(st, ZERO)]
        if name.startswith(('nc_get_vara', 'nc_get_varm', 'nc_get_vars')):
            for j in ((2, 3) if 'vara' in name else (2, 3, 4, 5) if 'varm' in name else (2, 3, 4)): self.whole(eng, st, fr, node, a[j], self.nd, 'the index of every dimension')
            return [(st, ZERO)]
        if name in ('nc_open', 'nc_inq_varid'):
            bad = st.copy(); e = ('op', 'ncerr', C(name)); eng.assume(bad, cmp('!=', e, ZERO), True)
            w(a[2], ('op', name)); return [(st, ZERO), (bad, e)]
        if name == 'nc_inq_dim':
            for j in (2, 3):
                if a[j] is not None and a[j] != ZERO: w(a[j], ('r', site, 0, name))
            return [(st, ZERO)]
        return [(st, ZERO)]

_cache = {}

def const(p, n, d=4):
    for x in p.defs:
        if x.startswith(n + '='): return int(x.split('=')[1])
    return d

class DataEngine(Engine):
    """forgets values and conditions that come from the data (sizes, scalings, coordinates): they do not select array elements of interest here,
    so the paths they distinguish are joined; dimensions, levels and parameters are kept"""
    defer = False
    def data(self, v):
        if v is None: return False
        if v[0] == 'op' and v[1] == 'data': return True
        for x in subterms(v):
            if not isinstance(x, tuple) or not x: continue
            if x[0] == 'op' and x[1] in ('data', 'inf', 'undef', 'f/', 'f2i'): return True
            if x[0] == 'i' and x[1][0] in ('e', 'd'): return True
            if x[0] == 'r' and x[3] in DATA: return True
            if x[0] == 'o': return True
        return False
    def write(self, st, loc, val):
        if val is not None and val[0] != '&':
            if loc[0] == 't': val = ('op', 'data', loc)
            elif loc[0] == 'e' and self.isarr(loc[1]) or loc[0] != 'e' and self.isflt(loc): val = ('op', 'data', loc)
            elif self.data(val): val = ('op', 'data', loc)
        Engine.write(self, st, loc, val)
    def isarr(self, b): return b[0] == 'f' and b[2] in self.c.fs or b[0] == 'v' and re.match(r'(const )?(unsigned long|double|size_t|float)', self.c.ltype(b))
    def isflt(self, l):
        t = self.c.ltype(l)
        return t in ('double', 'float', 'const double')
    def loop_head(self, st, fr, bid, body):
        """loops over dimensions are short and are run to their end; loops over data end because their states are joined"""
        st = st.copy()
        for h in loops_of(fr.fn):
            if h in body and h != bid: st.loops.pop((fr.fid, h), None)
        k = (fr.fid, bid)
        if self.defer and k in st.sym and st.loops.get(k, (0,))[0] < self.unroll: st.sym = st.sym - {k}
        return Engine.loop_head(self, st, fr, bid, body)
    def assume(self, st, t, taken):
        Engine.assume(self, st, t, taken)
        for c in [c for c in st.conds if self.data(c)]: del st.conds[c]

DATA = {'getSize', 'getOffset', 'getScaling', 'round', 'isinf', 'isnan', 'floor', 'size', 'comm'}

def reader(rep, p):
    """open for every number of dimensions a file may have; afterwards every operation on a reader that was opened"""
    N = maxdim(p); n = 0
    op = p.fn(RD + '::open')
    for nd in list(range(-1, N + 3)) + [1024]:
        c = BndClient(p, rep, op, 'opening a file with %s dimensions' % ('unsupported' if not 1 <= nd <= N else nd))
        c.nd = C(nd); c.inlineall = True
        class K(type(c)): pass
        c.inline = lambda eng, fn, name: name.startswith((RD, 'io::'))
        e = Engine(p, c, 20000); res = e.run(op); rep.engine(p, e); n += c.seen
        ok_states = []
        for s, v in res:
            ev = s.ts or ()
            if not 1 <= nd <= N:
                rep.ob('C28.reject', 'a file with an unsupported number of dimensions is rejected', is_num(v) and v[1] != 0 or e.decide(s, cmp('!=', v, ZERO)) is True, '%d dimensions: open returns %s' % (nd, show(v)), op, None, s.trace())
                rep.ob('C28.reject', 'nothing is stored per dimension before the check', not any(x[0] in ('alloc', 'perdim') or x[0] == 'write' for x in ev), '%d dimensions: %s' % (nd, [x[0] for x in ev]), op, None, s.trace())
            elif v == ZERO: ok_states.append(s)
        if not 1 <= nd <= N: continue
        rep.ob('C28.accept', 'every supported number of dimensions is accepted', bool(ok_states), '%d dimensions cannot be opened' % nd, op)
        for s0 in ok_states[:1]:
            for fn in [f for f in p.funcs.values() if f.get('cls') == RD and f.get('blocks') and f.get('kind') not in ('ctor', 'dtor') and f['sn'] != 'open']:
                if fn['sn'].startswith('getVar') and fn['params']: continue  # followed from getBlock
                dimpar = fn['sn'] in ('getSize', 'getOffset', 'getScaling', 'getName')
                for d in (range(nd) if dimpar else [None]):
                    lens = {S(q['n']): C(nd) for q in fn['params'] if q['n'] in ('offset', 'size')}
                    c2 = BndClient(p, rep, fn, '%s of %d dimensions' % (fn['sn'], nd), {q['n']: fn['T'][q['t']] for q in fn['params']}, lens)
                    c2.nd = C(nd); c2.heap = dict(c.heap); c2.inline = c.inline
                    st = s0.copy(); st.ts = None
                    e2 = DataEngine(p, c2, 40000); e2.unroll = 12; e2.defer = True
                    e2.run(fn, args=[C(d)] + [None] * 0 if d is not None else None, st=st); rep.engine(p, e2); n += c2.seen
    return n

def perdim(l): return l[0] == 'e' and not (l[1][0] == 'f' and str(l[1][2]).startswith('#')) or l[0] == 'd' and l[1][0] == '&'

def maxdim(p):
    try:
        v = p.const('MAX_DIMENSIONS')
        if v is not None: return v
    except Exception: pass
    return 4

def meth(p, cls, name):
    l = [f for f in p.method_of(cls, name) if f.get('blocks')]
    return l[0] if l else None

def leveltypes(p):
    out = []
    for c in sorted(p.classes):
        if c.startswith('grid::level::') and meth(p, c, 'getAt') is not None: out.append(c)
    return out

class LevelClient(BndClient):
    def inline(self, eng, fn, name): return name.startswith(('grid::', 'types::BasicType')) and not name.startswith('types::BasicType::load')
    def more(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]
        site = (fr.fid, node.get('i'))
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if sn in ('logWarning', 'logInfo', 'logDebug', 'operator<<') or name.startswith('utils::'): return [(st, ('op', 'data', C('log')))]
        if name.startswith(RD + '::'):
            if sn == 'open':
                bad = st.copy(); r = ('r', site, 0, 'reader'); eng.assume(bad, cmp('!=', r, ZERO), True)
                self.ev(st, 'opened'); return [(st, ZERO), (bad, r)]
            if sn == 'dimensions':
                return [(st, self.nd if any(x[0] == 'opened' for x in st.ts or ()) or not self.opening else ('r', site, 0, 'dimensions of a closed file'))]
            if sn in ('getSize', 'getOffset', 'getScaling'):
                i = ld(args[0]); ok = is_num(i) and 0 <= i[1] < self.nd[1]; self.seen += 1
                self.rep.ob('C28.inside', '%s: only existing dimensions are asked for' % self.what, ok, '%s(%s) of %s dimensions' % (sn, show(i), show(self.nd)), fr.fn, node.get('l'), st.trace())
                return [(st, ('r', site, eng.count(st, site), sn))]
            if sn == 'getBlock':
                for j in (1, 2): self.whole(eng, st, fr, node, ld(args[j]), self.nd, 'every dimension')
                return [(st, None)]
        if sn == 'open' and name.startswith('grid::level::'):
            # the base class is a root of its own
            bad = st.copy(); r = ('r', site, 0, 'open'); eng.assume(bad, cmp('!=', r, ZERO), True)
            st.store[F('m_dims')] = self.nd; self.ev(st, 'opened'); return [(st, ZERO), (bad, r)]
        if sn == 'load' and name.startswith('types::') and len(args) >= 3:
            for j in (1, 2): self.whole(eng, st, fr, node, ld(args[j]), self.nd, 'every dimension')
            return [(st, None)]
        if sn == 'resetCounter' or name.startswith('perf::'): return None
    opening = False

def levels(rep, p, first=True):
    N = maxdim(p); n = 0; done = set()
    todo = leveltypes(p)
    for c in list(todo):
        for b in p.all_bases(c):
            if b.startswith('grid::level::') and b not in todo: todo.append(b)
    full = set()
    for cls in todo:
        short = re.sub(r'<.*', '', cls.split('::', 2)[2])
        op = next((f for f in p.funcs.values() if f.get('clsfull') == cls and f['sn'] == 'open' and f.get('blocks')), None)
        # instances of one class template share their code: all numbers of dimensions for one of them
        dims = [N] if short in full or first is False else range(1, N + 1)
        full.add(short)
        for nd in dims:
            roots = [('open', op)] + [('getAt', f) for f in p.funcs.values() if f.get('clsfull') == cls and f['sn'] == 'getAt' and f.get('blocks')][:1]
            roots += [(nm, f) for nm in ('min', 'max', 'delta', 'size') for f in [meth(p, cls, nm)] if f is not None]
            for nm, fn in roots:
                if fn is None or (fn['id'], nd) in done: continue
                done.add((fn['id'], nd))
                userdim = nm in ('min', 'max', 'delta', 'size')
                for d in (range(nd) if userdim else [None]):
                    lens = {}
                    for q in fn['params']:
                        t = fn['T'][q['t']]
                        if t == 'const int *': lens[S(q['n'])] = C(N)       # grid::Grid::open: MAX_DIMENSIONS block sizes
                        if t == 'const double *': lens[S(q['n'])] = C(nd)   # the user passes one coordinate per dimension
                    c = LevelClient(p, rep, fn, '%s with %d dimensions' % (short, nd), {q['n']: fn['T'][q['t']] for q in fn['params']}, lens, [(DOM, DOMS), (THR, THRS)])
                    c.nd = C(nd); c.opening = nm == 'open'
                    st = State(); st.store[F('m_dims')] = ZERO if nm == 'open' else C(nd)
                    e = DataEngine(p, c, 60000); e.unroll = 12
                    res = e.run(fn, args=[C(d)] if d is not None else None, st=st); rep.engine(p, e); n += c.seen
                    if nm == 'open':
                        for s, v in res:
                            dm = s.store.get(F('m_dims'))
                            rep.ob('C28.dims', 'a level never has more dimensions than its file', dm in (ZERO, C(nd)), '%s: m_dims = %s' % (short, show(dm) if dm is not None else dm), fn, None, s.trace())
    return n

def threadbuffers(rep, p):
    """buffers with a part for every thread"""
    n = 0
    for cls in [c for c in leveltypes(p) if 'PassThrough' in c]:
        op = meth(p, cls, 'open')
        TS = ('op', 'typeSize')
        class K(BndClient):
            def one(self, *a): pass      # the arrays are checked for every number of dimensions elsewhere
            def inline(self, eng, fn, name): return name.startswith(cls.split('<')[0])
            def more(self, eng, st, fr, node, name, obj, args):
                sn = name.split('::')[-1]
                if sn == 'typeSize': return [(st, TS)]
                if name.startswith('grid::level::Level') and sn == 'open':
                    bad = st.copy(); r = ('op', 'err'); eng.assume(bad, cmp('!=', r, ZERO), True); return [(st, ZERO), (bad, r)]
                if sn in ('load', 'convert') and name.startswith('types::'):
                    self.ev(st, 'use', sn, tuple(eng.load(st, a, fr, node) if a is not None else None for a in args)); return [(st, None)]
        c = K(p, rep, op, 'PassThrough'); e = Engine(p, c, 4000); sizes = set()
        for s, v in e.run(op):
            if v == ZERO:
                f = s.store.get(F('m_buf')); l = Engine.deref(f) if f is not None and f[0] == '&' else None
                if l is not None and l[0] == 'e': l = l[1]
                sizes.add(c.heap.get(l))
        rep.engine(p, e)
        rep.ob('C28.thread', 'the buffer is allocated when the level is opened', len(sizes) == 1 and None not in sizes, 'sizes %s' % [show(x) if x else x for x in sizes], op)
        if len(sizes) != 1 or None in sizes: continue
        size = sizes.pop()
        for g in [f for f in p.funcs.values() if f.get('clsfull') == cls and f['sn'] == 'getAt' and f.get('blocks')]:
            c = K(p, rep, g, 'PassThrough'); e = Engine(p, c, 4000)
            for s, v in e.run(g):
                for x in s.ts or ():
                    if x[0] != 'use': continue
                    bufv = x[2][-1] if x[1] == 'load' else x[2][0]
                    l = Engine.deref(bufv); n += 1
                    off = l[2] if l[0] == 'e' else ZERO
                    b = l[1] if l[0] == 'e' else l
                    rep.ob('C28.thread', 'the buffer of the level is used', b == ('d', ('i', F('m_buf'))), showloc(l), g, None, s.trace())
                    # offset + size of one value fits for every thread, and parts of different threads do not overlap
                    bad = [(t, T, k) for k in (1, 2, 8, 24) for T in range(1, 6) for t in range(T) if not fits(off, size, TS, t, T, k)]
                    rep.ob('C28.thread', 'every thread has a part of its own', not bad, 'thread %d of %d, %d bytes per value: offset %s, size %s' % (bad[0] + (show(off), show(size)) if bad else (0, 0, 0, '', '')), g, None, s.trace())
            rep.engine(p, e)
    return n

def fits(off, size, TS, t, T, k):
    def leaf(x):
        if x == TS: return k
        if x == THR: return t
        if x == THRS: return T
        raise Unknown(x)
    try: o, z = evaluate(off, leaf), evaluate(size, leaf)
    except Unknown: return False
    def leaf2(x):
        if x == THR: return t + 1
        return leaf(x)
    try: o2 = evaluate(off, leaf2)
    except Unknown: return False
    return 0 <= o and o + k <= z and o2 >= o + k

class GridClient(BndClient):
    prefix = ('grid::Grid',)
    def inline(self, eng, fn, name): return name.startswith(self.prefix) and 'createContainer' not in name and name != 'grid::Grid::initContainers'
    def more(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]; site = (fr.fid, node.get('i'))
        if name == 'threads::Once::saveExec' or sn == 'initContainers':
            eng.write(st, ('f', F('m_containers'), '#size'), DOMS); return [(st, None)]      # C23.every
        if name.startswith('grid::level::') and node.get('k') != 'ctor':
            if sn == 'dimensions': return [(st, self.nd)]
            if sn in ('min', 'max', 'delta', 'size'):
                i = eng.load(st, args[0], fr, node); self.seen += 1
                self.rep.ob('C28.inside', '%s: only existing dimensions are asked for' % self.what, is_num(i) and 0 <= i[1] < self.nd[1], '%s(%s) of %s' % (sn, show(i), show(self.nd)), fr.fn, node.get('l'), st.trace())
                return [(st, ('r', site, eng.count(st, site), sn))]
            if sn == 'open': return [(st, ('r', site, 0, 'open'))]

def grids(rep, p):
    """the tables of levels, domains and dimensions of the grid and its containers"""
    N = maxdim(p); n = 0
    def run1(fn, what, st=None, args=None, nd=1, base=((DOM, DOMS),), lens=None):
        GridClient.prefix = ('grid::Grid',) if what == 'grid' else ('grid::SimpleContainer', 'grid::TypedContainer', 'grid::Container')
        c = GridClient(p, rep, fn, what, {q['n']: fn['T'][q['t']] for q in fn['params']}, lens, base); c.nd = C(nd)
        e = DataEngine(p, c, 40000); e.unroll = 12
        r = e.run(fn, args=args, st=st); rep.engine(p, e)
        return c.seen, r
    G = 'grid::Grid::'
    for nm in ('open',):
        for fn in p.fns(G + nm): n += run1(fn, 'grid')[0]
    for fn in [f for f in p.fns(G + 'setParam') if f.get('blocks')]:
        for level, have in ((0, 0), (0, 3), (2, 0), (3, 2), (2, 3)):
            st = State(); st.store[('f', F('m_params'), '#size')] = C(have)
            n += run1(fn, 'grid', st, [S(fn['params'][0]['n']), S(fn['params'][1]['n']), C(level)])[0]
    for fn in [f for f in p.fns(G + 'param') if f.get('blocks')]: n += run1(fn, 'grid')[0]
    for nm in ('getMin', 'getMax', 'getDelta', 'getDimensions', 'getByte', 'getInt', 'getLong', 'getFloat', 'getDouble', 'getBuf'):
        for fn in [f for f in p.fns(G + nm) if f.get('blocks')]:
            # an opened grid has a container for every domain (C23)
            st = State(); st.store[('f', F('m_containers'), '#size')] = DOMS
            n += run1(fn, 'grid', st, base=((DOM, DOMS), (ZERO, DOMS)))[0]
    for cls in sorted(c for c in p.classes if c.startswith('grid::SimpleContainer<')):
        for nm in ('init',):
            fn = meth(p, cls, nm)
            if fn is None: continue
            for nd in range(1, N + 1):
                for level, have in ((0, 0), (1, 0), (2, 1), (0, 2), (2, 3)):
                    st = State(); st.store[('f', F('m_levels'), '#size')] = C(have)
                    args = [C(level) if q['n'] == fn['params'][-1]['n'] else S(q['n']) for q in fn['params']]
                    k, r = run1(fn, 'container', st, args, nd); n += k
                    for s, v in r:
                        if v == ZERO:
                            z = s.store.get(('f', F('m_levels'), '#size'))
                            rep.ob('C28.level', 'a level that was opened exists', z is not None and z[0] == 'c' and z[1] > level, 'level %d of %s' % (level, show(z) if z is not None else z), fn, None, s.trace())
    for fn in [f for f in p.funcs.values() if (f.get('cls') or '') in ('grid::Container',) and f['sn'] in ('getMin', 'getMax') and f.get('blocks')]:
        for nd in range(1, N + 1):
            for d in range(nd): n += run1(fn, 'container', None, [C(d)], nd)[0]
    return n

class DomClient(BndClient):
    def inline(self, eng, fn, name): return name.startswith(self.cls) and fn.get('kind') not in ('ctor',)
    def more(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]; site = (fr.fid, node.get('i'))
        if name.startswith('numa::NumaComm::') and sn in ('broadcast', 'agree'):
            r = ('r', site, eng.count(st, site), sn)
            if sn == 'broadcast' and args and args[0] is not None and args[0][0] in ('L', 'obj'):
                l = eng.canon(st, args[0][1]); old = eng.read(st, l)
                if not (old[0] == '&' and eng.decide(st, cmp('==', DOM, ZERO)) is True):
                    # the value of domain 0
                    new = ('op', 'shared', C(showloc(l)))
                    eng.write(st, l, new)
                    if showloc(l) in self.shared: self.lens[new] = self.shared[showloc(l)]; self.lens[('d', new)] = self.shared[showloc(l)]
            return [(st, r)]
        if name.startswith(('transfer::MPICache', 'mpi::', 'MPI_', 'cache::', 'types::')) and not name.startswith(self.cls):
            return [(st, ('r', site, eng.count(st, site), sn))]

def domains(rep, p):
    """tables with an entry for every domain"""
    n = 0
    for cls in ('transfer::NumaCache', 'transfer::MPIThreadCache'):
        l = [f for f in p.fns(cls + '::init', required=False) if f.get('blocks')]
        for fn in l:
            shared = {}
            final = {}
            for rnd in (0, 1):
                c = DomClient(p, rep if rnd else Null(), fn, cls.split('::')[-1], {q['n']: fn['T'][q['t']] for q in fn['params']}, None, [(DOM, DOMS), (ZERO, DOMS)]); c.cls = cls; c.shared = shared
                e = Engine(p, c, 40000); e.unroll = 12
                res = e.run(fn)
                for s, v in res:
                    for k, x in s.store.items():
                        if k[0] == 'f' and k[1] == THISLOC and isinstance(x, tuple) and x[0] == '&':
                            h = x[1][1] if x[1][0] == 'e' else x[1]
                            if h in c.heap: shared[showloc(k)] = c.heap[h]
                        if k[0] == 'f' and k[1] == THISLOC: final.setdefault(k, set()).add(x)
                n += c.seen if rnd else 0
            rep.engine(p, e)
            rep.ob('C28.domain', '%s has a table with an entry for every domain' % cls.split('::')[-1], any(x == DOMS or DOMS in subterms(x) for x in shared.values()), 'tables: %s' % {k: show(x) for k, x in shared.items()}, fn)
            consts = {k: next(iter(x)) for k, x in final.items() if len(x) == 1 and next(iter(x)) in (DOM, DOMS)}
            for g in [f for f in p.funcs.values() if (f.get('cls') or '').startswith(cls) and f.get('blocks') and f.get('kind') not in ('ctor', 'dtor') and f['id'] != fn['id'] and f['sn'] != 'init']:
                for own in ({True, False} if (g.get('cls') or '') != cls else {True}):
                    c = DomClient(p, rep, g, cls.split('::')[-1], {q['n']: g['T'][q['t']] for q in g['params']}, None, [(DOM, DOMS), (ZERO, DOMS)]); c.cls = cls; c.shared = {}
                    st = State()
                    root = THISLOC if (g.get('cls') or '') == cls else ('d', ('i', F('m_parent')))
                    for k, x in consts.items(): st.store[('f', root, k[2])] = x
                    for k, x in shared.items():
                        f = k.split('.')[-1]
                        if x != DOMS: continue     # tables of blocks belong to C04 and C29
                        for t in (('i', ('f', root, f)),): c.lens[t] = x; c.lens[('d', t)] = x
                    e = Engine(p, c, 40000); e.unroll = 12
                    try: e.run(g, st=st)
                    except Budget: raise
                    rep.engine(p, e); n += c.seen
                    if (g.get('cls') or '') != cls: break
    return n

class Null:
    def ob(self, *a, **k): pass

def counters(rep, p):
    """counter types index the table of native counters"""
    n = 0
    K = 'perf::Counter'
    size = {x for k, v in fieldsizes(p).items() if k == 'm_counter' for x in v}
    inv = p.enums
    en = next((v for k, v in enums(p).items() if k.endswith('Counter::CounterType')), None)
    if en is None or len(size) != 1: raise AnalysisBroken('counter types not found')
    size = size.pop()
    # every increment in the library uses a native counter
    for f in p.funcs.values():
        if not f.get('blocks'): continue
        for c in calls(f):
            if (c.get('n') or '').split('::')[-1] in ('incCounter', 'inc') and (c.get('n') or '').startswith(('grid::', 'perf::')):
                v = argconst(p, f, c)
                if v is None: continue
                n += 1
                rep.ob('C28.counter', 'only native counters are incremented', 0 <= v < size, 'counter %d of %d in %s' % (v, size, f['n']), f, c.get('l'))
    for fn in [f for f in p.fns(K + '::get') if f.get('blocks')]:
        for nm, v in en:
            c = BndClient(p, rep, fn, 'reading counter ' + nm); e = Engine(p, c, 4000)
            e.run(fn, args=[C(v)]); rep.engine(p, e); n += c.seen
    for fn in [f for f in p.fns(K + '::inc') if f.get('blocks')]:
        for nm, v in en:
            if v < size:
                c = BndClient(p, rep, fn, 'incrementing counter ' + nm); e = Engine(p, c, 4000); e.run(fn, args=[C(v)]); rep.engine(p, e); n += c.seen
    # names select one of the values above
    for fn in [f for f in p.fns(K + '::name2type') if f.get('blocks')]:
        ok = {v for _, v in en}
        e = Engine(p, Client(), 4000)
        for s, v in e.run(fn):
            n += 1
            rep.ob('C28.counter', 'a name selects an existing counter', is_num(v) and v[1] in ok or v[0] == 'i' or v[0] == 'op' and v[1] in ('part',), 'name2type returns %s' % show(v), fn, None, s.trace())
        rep.engine(p, e)
    return n

def enums(p):
    return {e['n']: e['c'] for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums)}

def argconst(p, f, c):
    els = {e.get('i'): e for b in f['blocks'] for e in b['e'] if 'i' in e}
    x = c['args'][0] if c.get('args') else None
    while isinstance(x, dict):
        if 'r' in x and 'k' not in x: x = els.get(x['r']); continue
        if x.get('k') in ('cast', 'pass', 'mat', 'paren'): x = x.get('e'); continue
        if x.get('k') == 'int': return x.get('v')
        if x.get('k') == 'ref' and 'v' in x: return x['v']
        if x.get('k') == 'ref' and x.get('val') is not None: return x['val']
        return None
    return None

def structs(rep, p):
    """arrays describing the members of a compound type"""
    n = 0
    for fn in [f for f in p.funcs.values() if f.get('blocks') and (f['sn'] == 'createStruct' or f.get('kind') == 'ctor' and f['n'].startswith('types::StructType')) and any('*' in f['T'][q['t']] for q in f['params'])]:
        cnt = S(fn['params'][0]['n'])
        lens = {S(q['n']): cnt for q in fn['params'][1:] if '*' in fn['T'][q['t']] or '[' in fn['T'][q['t']]}
        class K(BndClient):
            def inline(self, eng, f, name): return name.startswith('types::StructType') or fn['sn'] == f['sn']
        c = K(p, rep, fn, fn['sn'], {q['n']: fn['T'][q['t']] for q in fn['params']}, lens, [(ZERO, cnt)])
        e = Engine(p, c, 20000); e.unroll = 6
        e.run(fn); rep.engine(p, e); n += c.seen
    return n

def run(rep):
    rep.rule('C28.inside', 'every element access names an element of its array, for every supported number of dimensions')
    rep.rule('C28.reject', 'files with an unsupported number of dimensions are rejected before anything is stored per dimension')
    rep.rule('C28.accept', 'every number of dimensions from 1 to the maximum is accepted')
    rep.rule('C28.dims', 'a level takes its number of dimensions from a file that was opened')
    rep.rule('C28.level', 'levels exist after they were opened')
    rep.rule('C28.thread', 'per-thread buffers have a separate part for every registered thread')
    rep.rule('C28.domain', 'per-domain tables have an entry for every domain')
    rep.rule('C28.counter', 'counter types stay inside the table of counters')
    t = {}
    for cfg in (['default', 'nonuma_nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        for k, f in (('reader accesses', reader), ('level accesses', levels), ('thread buffers', threadbuffers), ('grid accesses', grids), ('domain tables', domains), ('counter accesses', counters), ('type members', structs)):
            t[k] = t.get(k, 0) + f(rep, p)
    rep.notes.append('accesses checked: %s' % t)
    for k, m in (('reader accesses', 500), ('level accesses', 1000), ('thread buffers', 4), ('grid accesses', 100), ('domain tables', 10), ('counter accesses', 30), ('type members', 10)): rep.floor(k, t[k], m)
