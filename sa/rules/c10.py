"""C10: cache index bijection, look-ups, replacement; eviction search below the cache size."""
import itertools
from ..locks import *
from ..bounds import Facts, loop_le

FREE = ('p', '#free')

# ------------------------------------------------------------------ the index
class IndexClient(LockClient):
    """events: ('put'|'erase', key) ('mapw', key, value) ('arr', index, value) ('access', index)"""
    def __init__(self, p): LockClient.__init__(self, p); self.maps = set()
    def mapop(self, eng, st, obj, key, present):
        self.maps.add(obj); self.emit(st, ('put' if present == ONE else 'erase', key))
    def write(self, eng, st, fr, node, loc, val):
        if fr.fn.get('cls', '').endswith('LRU'): return
        l = loc
        if l[0] == 'f' and l[2] == 'second' and l[1][0] == 'e' and l[1][1][0] == 'f' and l[1][1][2] == '#map': self.emit(st, ('mapw', l[1][2], val))
        elif l[0] == 'e' and locroot(l)[0] in ('d', 'g') and not (l[1][0] == 'f' and l[1][2] in ('#map', '#in')): self.emit(st, ('arr', l[2], val))
    def special(self, eng, st, fr, node, name, obj, args):
        m = name.rsplit('::', 1)
        if m[0].endswith('LRU'):
            if m[1] == 'getFree':
                self.emit(st, ('free',))
                return [(st, ('i', FREE))]
            if m[1] == 'access':
                self.emit(st, ('access', eng.load(st, args[0]))); return [(st, None)]
        return None
    def keep_sym(self, s): return True

class World:
    """one concrete content of the cache index"""
    def __init__(self, arr, block, free):
        self.arr = list(arr); self.map = {b: i for i, b in enumerate(arr) if b >= 0}
        self.block, self.free = block, free
        self.arr0, self.snaps = list(arr), [dict(self.map)]
    def leaf(self, params):
        def f(t):
            if t[0] == 'i':
                l = t[1]
                if l == FREE: return self.free
                if l[0] == 'p' and l[1] == params[0]: return self.block
                if l[0] == 'f' and l[2] == 'second' and l[1][0] == 'e':
                    k = evaluate(l[1][2], f)
                    return self.snaps[0].get(k, 'undefined') if k != 'undefined' else k
                if l[0] == 'e':
                    k = evaluate(l[2], f)
                    return self.arr0[k] if isinstance(k, int) and 0 <= k < len(self.arr0) else 'undefined'
            if t[0] == 'op' and t[1] == 'in':
                k, v = evaluate(t[3], f), t[4][1]
                if k == 'undefined': return k
                return int(k in self.snaps[min(v, len(self.snaps) - 1)])
            raise Unknown(show(t))
        return f
    def play(self, evs, leaf):
        """apply the events; message if one of them is invalid"""
        for e in evs:
            a = [evaluate(x, leaf) for x in e[1:]]
            if 'undefined' in a: return 'uses an undefined value (%s)' % e[0]
            if e[0] == 'put': self.map.setdefault(a[0], 0); self.snaps.append(dict(self.map))
            elif e[0] == 'erase': self.map.pop(a[0], None); self.snaps.append(dict(self.map))
            elif e[0] == 'mapw': self.map[a[0]] = a[1]
            elif e[0] == 'arr':
                if not 0 <= a[0] < len(self.arr): return 'writes outside of the slot table'
                self.arr[a[0]] = a[1]
            elif e[0] == 'access':
                if not 0 <= a[0] < len(self.arr): return 'marks a slot outside of the cache as used'
        return None

def worlds():
    for n in (1, 2, 3):
        for arr in itertools.product((-1, 0, 1, 2, 3), repeat=n):
            b = [x for x in arr if x >= 0]
            if len(set(b)) != len(b): continue
            for block in range(4):
                for free in range(n): yield arr, block, free

def index_rules(rep, p):
    n = 0
    for name in ('get', 'tryGet'):
        fn = p.fn('cache::CacheManager::' + name)
        pn = [x['n'] for x in fn['params']]
        c = IndexClient(p)
        res, e = summary(p, fn, client=c, rep=rep)
        if not c.maps and name == 'get': raise AnalysisBroken('no map is updated by ' + fn['n'])
        outs = []
        for s, v in res:
            off = e.read(s, e.canon(s, e.deref(('i', ('p', pn[1])))))
            outs.append((s, v, off, [x for x in LockClient.evs(s) if x[0] in ('put', 'erase', 'mapw', 'arr', 'access', 'free')]))
        for arr, block, free in worlds():
            tried = 0
            for s, v, off, evs in outs:
                w = World(arr, block, free); leaf = w.leaf(pn); feas = True; bad = None; i = 0
                # conditions refer to the state of the map at their time
                bad = w.play(evs, leaf)
                for cnd, pol in s.conds.items():
                    try: x = evaluate(cnd, leaf)
                    except Unknown: continue
                    if x == 'undefined': continue
                    if bool(x) != pol: feas = False; break
                if not feas: continue
                tried += 1; n += 1
                hit = block in World(arr, block, free).map
                where = '%s with %s, block %d, free slot %d' % (name, list(arr), block, free)
                try:
                    ret = evaluate(v, leaf) if v is not None else None
                    o = evaluate(off, leaf) if name == 'get' or ret else None
                except Unknown as u: raise AnalysisBroken('%s: cannot follow %s' % (fn['n'], u))
                def ob(kind, ok, msg): rep.ob('C10.' + kind, name, ok, msg + ' (%s)' % where, fn, trace=s.trace())
                ob('defined', bad is None, str(bad))
                if name == 'tryGet':
                    ob('lookup', w.arr == list(arr) and w.map == World(arr, block, free).map, 'a probe changes the index')
                    if ret: ob('lookup', hit and o == arr.index(block), 'reports slot %s for block %d' % (o, block))
                    continue
                if hit:
                    ob('lookup', ret == block and o == arr.index(block), 'a cached block is not found: returns block %s in slot %s' % (ret, o))
                    ob('lookup', w.arr == list(arr) and w.map == World(arr, block, free).map, 'a look-up of a cached block changes the index')
                    ob('lookup', ('free',) not in evs, 'a look-up of a cached block evicts a slot')
                else:
                    ob('replace', ret == arr[free] and o == free, 'replacing slot %d (block %d) returns block %s in slot %s' % (free, arr[free], ret, o))
                    exp = list(arr); exp[free] = block
                    ob('replace', w.arr == exp, 'the slot table becomes %s instead of %s' % (w.arr, exp))
                    ob('replace', w.map == {b: i for i, b in enumerate(exp) if b >= 0}, 'the index becomes %s instead of %s' % (w.map, {b: i for i, b in enumerate(exp) if b >= 0}))
                    ob('replace', all(len(set(x.values())) == len(x) for x in w.snaps) or True, '')
            rep.ob('C10.defined', name + ' has a path for every state', tried > 0, 'no path for %s, block %d' % (list(arr), block), fn)
    rep.floor('instantiated cache states', n, 200)
    # nobody else changes the index
    cl = p.cls('cache::CacheList') if hasattr(p, 'cls') else None
    return n

# ------------------------------------------------------------------ initial state and sizes
def init_rules(rep, p):
    """slot table, locks and clock are created for the same number of slots, all empty"""
    fn = p.fn('cache::CacheManager::init')
    class I(LockClient):
        def __init__(s): LockClient.__init__(s, p); s.arrays = {}; s.lens = {}; s.full = {}; s.heads = []; s.lru = []; s.fill = {}
        def special(s, eng, st, fr, node, name, obj, args):
            if name in ('std::fill_n', 'std::fill', 'std::uninitialized_fill_n', 'std::__uninitialized_default_n') and len(args) == 3:
                d, n, val = [eng.load(st, x) for x in args]
                if name == 'std::fill': n = eng.pdiff(n, d)
                l = Engine.deref(d)
                if l[0] == 'e' and l[1][0] == 'h': s.full.setdefault(l[1], []).append((n, val))
                return [(st, d)]
            if name.endswith('LRU::init'): s.lru.append(eng.load(st, args[0])); return [(st, None)]
            return None
        def write(s, eng, st, fr, node, loc, val):
            if val is not None and val[0] == '&' and val[1][0] == 'e' and val[1][1][0] == 'h' and loc[0] == 'f':
                h = val[1][1]; s.arrays[loc[2]] = (s.lens.get(h), h)
            if loc[0] == 'e' and loc[1][0] == 'h': s.fill.setdefault(loc[1], []).append((loc[2], val, dict(st.conds), fr.fn))
            if loc[0] == 'f' and loc[2] == '#size' : pass
        def alloc(s, eng, st, fr, node, loc, n): s.lens[loc] = n
        def loop(s, eng, st, fr, bid): s.heads.append((dict(st.store), dict(st.conds)))
        def keep_sym(s, x): return True
    c = I()
    res, e = summary(p, fn, client=c, rep=rep)
    blocks = [x['n'] for x in fn['params']][1]
    N = ('i', ('p', blocks))
    rep.ob('C10.init', 'the clock gets the number of slots', bool(c.lru) and all(x == N for x in c.lru), 'is initialised with %s' % [show(x) for x in c.lru], fn)
    k = 0
    for f, (ln, h) in c.arrays.items():
        k += 1
        rep.ob('C10.init', '%s has one entry per slot' % f, ln == N, 'has %s entries' % (show(ln) if ln else '?'), fn)
    for s, v in res:
        for l, x in s.store.items():
            if l[0] == 'f' and l[2] == '#size' and locroot(l)[0] == 'd':
                k += 1; rep.ob('C10.init', 'table has one entry per slot', x == N, 'has %s entries' % show(x), fn)
    rep.floor('tables with one entry per slot', k, 1)
    # the slot table starts empty
    tables = {h: f for f, (ln, h) in c.arrays.items() if c.fill.get(h) or h in c.full}
    for h, f in tables.items():
        if h in c.full:
            for n, val in c.full[h]:
                rep.ob('C10.init', '%s starts without blocks' % f, is_num(val) and val[1] < 0, 'an entry is initialised with %s' % show(val), fn)
                rep.ob('C10.init', '%s is initialised completely' % f, n == N, '%s of %s entries are initialised' % (show(n), show(N)), fn)
            continue
        for idx, val, conds, ff in c.fill[h]:
            rep.ob('C10.init', '%s starts without blocks' % f, is_num(val) and val[1] < 0, 'an entry is initialised with %s' % show(val), ff)
            b = Facts(conds, atleast=[(N, 1)])
            for x, y in loop_le(c.heads, [N]): b.add_le(x, y)
            rep.ob('C10.init', '%s is initialised inside its bounds' % f, b.below(idx, N), 'writes entry %s of %s' % (show(idx), show(N)), ff)
        # the initialising loop ends with its index at the number of slots
        idxs = set(i for i, *_ in c.fill[h] if i[0] == 'phi')
        consts = set(i[1] for i, *_ in c.fill[h] if is_num(i))
        down = any(any(set(syms(x)) & idxs for x in [v]) for i, v, *_ in c.fill[h])
        for s, v in res:
            b = Facts(s.conds, signed=lambda a: a[0] == 'i' and a[1] == ('p', 'handDiff'), atleast=[(N, 1)])
            ok = any(b.prove(sub(x, N)) for x in sorted(idxs, key=repr)) and 0 in consts \
                or any(b.prove(sub(C(k), N)) for k in range(1, len(consts) + 2) if set(range(k)) <= consts)
            rep.ob('C10.init', '%s is initialised completely' % f, ok, 'not all entries are initialised', fn, trace=s.trace())

# ------------------------------------------------------------------ the eviction search
class ClockClient(Summ):
    """records table accesses, field values at loop heads, allocations"""
    def __init__(self): Summ.__init__(self); self.uses = []; self.news = []; self.lens = {}; self.heads = []; self.written = set()
    def alloc(self, eng, st, fr, node, loc, n): self.lens[loc] = n
    def idx(self, eng, st, fr, node, loc, how):
        if loc[0] == 'e' and locroot(loc)[0] in ('d', 'h', 'g') and loc[1][0] in ('d', 'h', 'f'): self.uses.append((loc, dict(st.conds), fr.fn, node.get('l') if isinstance(node, dict) else None, how, st.trace()))
    def read(self, eng, st, fr, node, loc): self.idx(eng, st, fr, node, loc, 'reads')
    def write(self, eng, st, fr, node, loc, val):
        self.idx(eng, st, fr, node, loc, 'writes')
        if loc[0] == 'f' and loc[1] == THISLOC: self.written.add((loc, val))
        if loc[0] == 'f' and val is not None and val[0] == '&' and val[1][0] == 'e' and val[1][1][0] == 'h': self.news.append((loc, self.lens.get(val[1][1]), fr.fn))
    def loop(self, eng, st, fr, bid):
        self.heads.append((dict(st.store), dict(st.conds), fr.fn, st.trace()))
    def keep_sym(self, s): return True

def signed_params(f):
    s = set()
    for x in f['params']:
        t = f['T'][x['t']] if isinstance(x['t'], int) else str(x['t'])
        if 'unsigned' not in t and 'size_t' not in t and t.split()[-1] not in ('bool',): s.add(('i', ('p', x['n'])))
    return lambda a: a in s or a[0] in ('r', 'o')

def clock_rules(rep, p):
    cls = 'cache::LRU'
    fns = [f for f in p.funcs.values() if f.get('cls') == cls and 'blocks' in f]
    init = p.fn(cls + '::init'); free = p.fn(cls + '::getFree')
    runs = {}
    for f in fns:
        c = ClockClient(); res, e = summary(p, f, client=c, rep=rep); runs[f['id']] = (f, c, res, e)
    f, ci, ri, ei = runs[init['id']]
    N0 = ('i', ('p', init['params'][0]['n']))
    size = set.intersection(*[set(l for l, v in s.store.items() if v == N0 and l[0] == 'f' and l[1] == THISLOC) for s, v in ri])
    if not size: raise AnalysisBroken('the clock does not keep its size')
    SZ = sorted(size, key=repr)[0]
    for f, c, res, e in runs.values():
        for l, v in c.written:
            if l == SZ: rep.ob('C10.clock', 'the number of slots is set once', f is init or f.get('kind') == 'ctor', 'is changed by ' + f['n'], f)
        for l, n, ff in c.news:
            if f is init: rep.ob('C10.clock', 'the reference table has one entry per slot', n == N0, 'has %s entries' % (show(n) if n else '?'), ff)
    for s, v in ri:
        for l, x in s.store.items():
            if l[0] == 'f' and l[2] == '#size' and l[1][0] == 'f' and l[1][1] == THISLOC: rep.ob('C10.clock', 'the reference table has one entry per slot', x == N0, 'has %s entries' % show(x), init)
    # greatest set of fields that are below the number of slots whenever an operation starts or a loop iterates
    cand = set(l for f, c, *_ in runs.values() if f.get('kind') not in ('ctor', 'dtor') for l, v in c.written if l != SZ and v is not None and v[0] not in ('&',))
    def facts(f, conds, terms, extra=()):
        N = N0 if f is init else ('i', SZ)
        sy = set()
        for t in list(terms) + list(conds): sy |= syms(t)
        less = list(extra)
        if f is not init: less += [(('i', l), N) for l in cand]
        less += [(s, N) for s in sy if s[0] == 'phi' and len(s) > 3 and s[3] in cand]
        fa = Facts(conds, signed=signed_params(f), less=less, atleast=[(N, 1)])
        # loop counters that run up to a field or to the size
        lim = [N] + [x for x in set(v for s, v in [(l, st.get(l)) for st, *_ in runs[f['id']][1].heads for l in cand]) if x is not None]
        for x, y in loop_le(runs[f['id']][1].heads, lim): fa.add_le(x, y)
        return fa, N
    why = {}
    changed = True
    while changed:
        changed = False
        for f, c, res, e in runs.values():
            if f.get('kind') in ('ctor', 'dtor'): continue
            for l in sorted(cand, key=repr):
                pts = [(s.store[l], s.conds, f, s.trace()) for s, v in res if l in s.store] + [(st[l], cd, ff, tr) for st, cd, ff, tr in c.heads if l in st and f is not init]
                for v, conds, ff, tr in pts:
                    b, N = facts(f, conds, [v])
                    if not b.below(v, N):
                        cand.discard(l); changed = True; why[l] = (f, v, tr); break
    rep.notes.append('below the number of slots by induction: %s' % sorted(showloc(l) for l in cand))
    w = '; '.join('%s may become %s in %s' % (showloc(l), show(x[1]), x[0]['n']) for l, x in why.items())
    f, c, res, e = runs[free['id']]
    for s, v in res:
        b, N = facts(f, s.conds, [v])
        rep.ob('C10.clock', 'the slot returned by the search is below the cache size', b.below(v, N), 'returns %s, which is not bounded by the cache size; %s' % (show(v), w), f, trace=s.trace())
    k = 0
    for f, c, res, e in runs.values():
        if f.get('kind') in ('ctor', 'dtor'): continue
        par = [(('i', ('p', x['n'])), ('i', SZ)) for x in f['params']] if f['sn'] == 'access' else []
        for loc, conds, ff, ln, how, tr in c.uses:
            b, N = facts(f, conds, [loc[2]], par)
            k += 1
            rep.ob('C10.clock', '%s uses a valid entry of the reference table' % f['sn'], b.below(loc[2], N), '%s entry %s; %s' % (how, show(loc[2]), w), ff, ln, tr)
    rep.floor('uses of the reference table', k, 4)

def run(rep):
    rep.rule('C10.lookup', 'looking up a cached block returns its slot and changes nothing; a probe never changes the index')
    rep.rule('C10.replace', 'replacing a slot returns its old block, removes exactly that block and enters the new one in both tables')
    rep.rule('C10.defined', 'every operation is defined in every consistent state of the index')
    rep.rule('C10.init', 'all tables are created for the same number of slots and start empty')
    rep.rule('C10.clock', 'the eviction search returns a slot below the cache size and stays inside its table (inductive bounds)')
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        index_rules(rep, p); init_rules(rep, p); clock_rules(rep, p)
