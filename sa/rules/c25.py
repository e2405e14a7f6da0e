"""C25: the directory list operations as exact transformers of a packed list; table accesses inside the table."""
from ..query import *
from ..xfer import *
from ..bounds import Facts
from .c29 import at, c_type, byparam
from . import c29
from .c12 import sized

NONE = C(-1)

def caches(p):
    """instances of the directory class: [(class, full name)]"""
    return sorted(set((f['cls'], f.get('clsfull') or f['cls']) for f in p.funcs.values() if (f.get('cls') or '').startswith('transfer::MPICache') and f['sn'].startswith('deleteBlockInfo')))

def methods(p, full, name, nparam):
    return [f for f in p.funcs.values() if (f.get('clsfull') or f.get('cls')) == full and f['sn'] == name and len(f['params']) == nparam and f.get('blocks')]

def list_length(p, full, rep):
    """number of entries of a list as set by the constructor"""
    for f in p.funcs.values():
        if (f.get('clsfull') or f.get('cls')) == full and f.get('kind') == 'ctor' and f.get('blocks') and not f['params']:
            for ev, h, s, v in paths(p, f, rep):
                for k, y in s.store.items():
                    if k[0] == 'f' and k[1] == THISLOC and 'ntry' in k[2] and is_num(y): return k, y[1]
    raise AnalysisBroken('length of the directory lists not found')

class ListClient(LockClient):
    """accesses to the list passed as first argument"""
    def __init__(self, p, fn):
        LockClient.__init__(self, p); self.base = ('d', P(fn, 0)); self.acc = []
    def special(self, eng, st, fr, node, name, obj, args):
        if name in ('memmove', 'memcpy', 'std::memmove', 'std::memcpy'):
            a = [eng.load(st, x, fr, node) for x in args]
            (d, i), (s_, j), n = ptr(a[0]), ptr(a[1]), sized(a[2])
            me = self.base[1]
            if d == me and s_ == me and all(is_num(x) for x in (i, j, n)):
                v = []
                for k in range(int(n[1]) // 8):
                    l = at(me, int(j[1]) + k); self.touch(eng, st, fr, node, l, 'read'); v.append(eng.read(st, l))
                for k in range(int(n[1]) // 8): eng.write(st, at(me, int(i[1]) + k), v[k]); self.touch(eng, st, fr, node, at(me, int(i[1]) + k), 'write')
                return [(st, a[0])]
        return None
    def touch(self, eng, st, fr, node, loc, how):
        loc = eng.canon(st, loc)
        if loc == self.base: self.acc.append((how, ZERO, dict(st.conds), fr.fn, node, st))
        elif loc[0] == 'e' and loc[1] == self.base: self.acc.append((how, loc[2], dict(st.conds), fr.fn, node, st))
    def read(self, eng, st, fr, node, loc): self.touch(eng, st, fr, node, loc, 'read')
    def write(self, eng, st, fr, node, loc, val): self.touch(eng, st, fr, node, loc, 'write')

def arand(t):
    return t[0] in ('r', 'o') and 'rand' in str(t[-1])

def in_list(idx, n, conds, extra=()):
    """0 <= idx < n, knowing that random numbers are not negative"""
    if is_num(idx): return 0 <= idx[1] < n
    f = Facts(conds, signed=lambda a: not arand(a))
    return f.below(idx, C(n))

def lists(rep, p, full):
    lf, L = list_length(p, full, rep)
    n = 0
    E = [S('entry%d' % i) for i in range(L)]
    def run(fn, k, extra=(), args=None):
        """all paths on a list with k valid entries"""
        c = ListClient(p, fn)
        e = Engine(p, c, 200000); st = State()
        st.store[lf] = C(L)
        for i in range(L): st.store[at(P(fn, 0), i)] = E[i] if i < k else NONE
        for i in range(k):
            e.assume(st, cmp('<', E[i], ZERO), False); e.assume(st, cmp('>=', E[i], ZERO), True)
        for c_, v in extra: e.assume(st, c_, v)
        res = e.run(fn, st=st, args=args)
        rep.engine(p, e)
        if not res: raise AnalysisBroken('no path through ' + fn['n'])
        for how, idx, conds, g, node, s in c.acc:
            ln = node.get('l') if isinstance(node, dict) else None
            rep.ob('C25.inside', '%s: %s' % (g['sn'], how), in_list(idx, L, conds), '%s of entry %s of a list of %d' % (how, show(idx), L), g, ln, s.trace())
            if how == 'read' and not is_num(idx): pass
        return [(s, e.load(s, v) if v is not None else None, [e.read(s, at(P(fn, 0), i)) for i in range(L)]) for s, v in res]
    def val(x): return showv(x)
    def showv(x): return '[%s]' % ', '.join(show(y) for y in x)
    def old(k): return [E[i] if i < k else NONE for i in range(L)]
    def lookup(fn, k, v, s, what):
        if k == 0: ok = v == NONE or (v is not None and is_num(v) and v[1] < 0)
        else: ok = v is not None and (v in E[:k] or chosen(v, fn, k, s))
        rep.ob('C25.lookup', what, ok, 'a list of %d positions yields %s' % (k, show(v) if v is not None else 'nothing'), fn, trace=s.trace())
    def chosen(v, fn, k, s):
        if v[0] != 'i': return False
        l = v[1]
        return l[0] == 'e' and l[1] == ('d', P(fn, 0)) and in_list(l[2], k, s.conds)
    full_s = full.split('::')[-1]
    for k in range(L + 1):
        for fn in methods(p, full, 'fetchBlockInfo', 1):
            for s, v, lst in run(fn, k):
                n += 1; lookup(fn, k, v, s, 'fetchBlockInfo')
                rep.ob('C25.lookup', 'fetchBlockInfo leaves the list alone', lst == old(k), 'list becomes %s' % val(lst), fn, trace=s.trace())
        for name in ('updateBlockInfo', 'fetchAndUpdateBlockInfo'):
            for fn in methods(p, full, name, 2):
                new = P(fn, 1)
                for s, v, lst in run(fn, k, [(cmp('<', new, ZERO), False)]):
                    n += 1
                    want = ([new] + E[:k])[:L]; want += [NONE] * (L - len(want))
                    rep.ob('C25.add', name, lst == want, 'a list of %d positions becomes %s' % (k, val(lst)), fn, trace=s.trace())
                    if name.startswith('fetch'): lookup2(rep, fn, k, v, s, E, L, in_list)
        for fn in methods(p, full, 'deleteBlockInfo', 2):
            x = P(fn, 1)
            for j in [None] + list(range(k)):
                ex = [(cmp('==', E[i], x), i == j) for i in range(k)] + [(cmp('==', x, NONE), False), (cmp('<', x, ZERO), False)]
                for s, v, lst in run(fn, k, ex):
                    n += 1
                    want = [E[i] for i in range(k) if i != j]; want += [NONE] * (L - len(want))
                    same = [a == b or (j is not None and set((a, b)) == set((x, E[j]))) for a, b in zip(lst, want)]
                    rep.ob('C25.remove', 'deleteBlockInfo', all(same), 'removing %s of %d positions yields %s' % ('position %d' % j if j is not None else 'an absent one', k, val(lst)), fn, trace=s.trace())
    return n

def lookup2(rep, fn, k, v, s, E, L, in_list):
    """the position returned by the combined operation is one of the old list"""
    if k == 0: ok = v == NONE
    else:
        ok = v in E[:k]
        if v is not None and v[0] == 'i' and v[1][0] == 'e' and v[1][1] == ('d', P(fn, 0)): ok = in_list(v[1][2], k, s.conds)
        if v is not None and v[0] == 'phi' or (v is not None and v[0] == 'op' and v[1] == 'sel'): ok = ok
    rep.ob('C25.lookup', 'fetchAndUpdateBlockInfo', ok, 'a list of %d positions yields %s' % (k, show(v) if v is not None else 'nothing'), fn, trace=s.trace())

# ------------------------------------------------------------------ table
def table(rep, p):
    """initialisation and entry addresses stay inside the table that is allocated; every entry is initialised"""
    n = 0
    for cls in ('MPIWinCache', 'MPIThreadCache'):
        for fi in p.fns('transfer::%s::init' % cls, required=False):
            ac = []
            class TC(Filler):
                def __init__(s): Filler.__init__(s, p)
                def filled(s, idx, cnt, val, fr, node, st):
                    for i in (idx, sub(add(idx, cnt), ONE)):
                        st2 = st.copy(); c = cmp('<', ZERO, cnt); st2.conds[c] = True
                        ac.append((('e', ('d', ('op', 'memory', ZERO)), i), dict(st2.conds), fr.fn, node, st2, val))
                def write(s, eng, st, fr, node, loc, val):
                    loc = eng.canon(st, loc)
                    b = locroot2(loc)
                    if b is not None: ac.append((loc, dict(st.conds), fr.fn, node, st.copy(), val))
            def locroot2(l):
                if l[0] == 'e' and l[1][0] == 'd' and l[1][1][0] in ('op', 'i') : return l
                return None
            size = None
            mem = None
            for ev, h, s, v in paths(p, fi, rep, args=byparam(fi), client=TC()):
                for e in ev:
                    if e[0] == 'alloc': size = e[3]; mem = e[2]
            if size is None: raise AnalysisBroken(cls + ': the directory is not allocated')
            dd, td = S('domainId'), S('totalDomains')
            for loc, conds, g, node, st, val in ac:
                base = loc[1]
                if not (base == ('d', ('op', 'memory', ZERO)) or (base[0] == 'd' and mem is not None and base[1] == ('i', mem)) or is_dict(p, base)): continue
                n += 1
                f = Facts(conds, less=[(dd, td)])
                # products: b*(d+1) <= b*T for every d < T
                ok = inside(f, conds, loc[2], size, dd, td)
                rep.ob('C25.table', '%s: initialisation writes inside the table' % g['n'], ok, 'writes entry %s of %s' % (show(loc[2]), show(size)), g, node.get('l') if isinstance(node, dict) else None, st.trace())
                rep.ob('C25.empty', '%s: every list starts empty' % g['n'], val == NONE, 'initialises with %s' % (show(val) if val else val), g, node.get('l') if isinstance(node, dict) else None, st.trace())
    return n
def is_dict(p, base): return base[0] == 'd' and base[1][0] == 'i' and base[1][1][0] == 'f' and 'ictionary' in base[1][1][2]

def inside(f, conds, idx, size, dd, td):
    """0 <= idx < size where size is a multiple of the number of domains and the own domain is smaller"""
    f2 = Facts(conds)
    if f2.below(idx, size): return True
    # size = u*T; idx < u*(d+1) and d + 1 <= T imply idx < size
    u = divide(size, td)
    if u is None: return False
    up = mul(u, add(dd, ONE))
    return f2.prove(idx) and f2.prove(sub(sub(up, idx), ONE))

def divide(t, x):
    """t / x if every monomial has the factor x"""
    if t == x: return ONE
    if t[0] != 'poly' or t[1] != 0: return None
    acc = ZERO
    for m, k in t[2]:
        m = list(m)
        if x not in m: return None
        m.remove(x)
        y = C(k)
        for z in m: y = mul(y, z)
        acc = add(acc, y)
    return acc

class Filler(InitClient):
    """std::fill and std::fill_n over the table"""
    def special(self, eng, st, fr, node, name, obj, args):
        if name in ('std::fill_n', 'std::fill') and len(args) == 3:
            a = [eng.load(st, x, fr, node) for x in args]
            b, o = ptr(a[0])
            n = a[1]
            if name == 'std::fill':
                b2, o2 = ptr(a[1]); n = sub(o2, o) if b2 == b else None
            if b is not None and n is not None and (b == ('op', 'memory', ZERO) or is_dict(self.p, ('d', b))):
                self.filled(o, n, a[2], fr, node, st); return [(st, ZERO)]
        return InitClient.special(self, eng, st, fr, node, name, obj, args)
    def filled(self, idx, cnt, val, fr, node, st): pass

def coverage(rep, p):
    """the initialisation loop of each domain covers exactly its share, so that all shares are the table"""
    n = 0
    for cls, full in caches(p):
        for fi in methods(p, full, 'init', 4):
            c = InitClient(p)
            writes = []; loops = []; fills = []
            class HC(Filler):
                def write(s, eng, st, fr, node, loc, val):
                    loc = eng.canon(st, loc)
                    if loc[0] == 'e' and loc[1][0] == 'd' and (loc[1] == ('d', ('op', 'memory', ZERO)) or is_dict(p, loc[1])): writes.append((loc[2], st.copy()))
                def loop(s, eng, st, fr, bid): loops.append(dict(st.store))
                def filled(s, idx, cnt, val, fr, node, st): fills.append((idx, cnt))
            args = byparam(fi)
            args = [S('cacheSize'), S('blockCount')] + args[2:]
            size = None; ends = []
            for ev, h, s, v in paths(p, fi, rep, args=args, client=HC(p)):
                for e in ev:
                    if e[0] == 'alloc': size = e[3]
                if v == ZERO: ends.append(s)
            if not (writes or fills) or size is None: raise AnalysisBroken(full + '::init does not fill the table')
            u = divide(size, S('totalDomains'))
            w = full.split('::')[-1]
            rep.ob('C25.share', w + ': the table is a multiple of the number of domains', u is not None, 'size %s' % show(size), fi)
            if u is None: continue
            first = mul(u, S('domainId')); last = add(first, u)
            n += 1
            if fills and not writes:
                rep.ob('C25.share', w + ': the share of the domain is initialised', all(f == (first, u) for f in fills), 'fills %s' % [(show(a), show(b)) for a, b in fills], fi)
                continue
            rep.ob('C25.share', w + ': initialisation starts at the share of the domain', any(i == first for i, s in writes), 'starts at %s' % sorted(set(show(i) for i, s in writes)), fi)
            gen = set((i, x) for i, s in writes for x in syms(i) if x[0] == 'phi')
            at_ = lambda i, x, v: subst(i, lambda t: v if t == x else None)
            ended = False
            for i, x in gen:
                vals = set(st.get(x[3]) for st in loops) - {None, x}
                up = {first, add(i, ONE)} | set(add(first, C(k)) for k in range(1, 4))
                bad = [at_(i, x, v) for v in vals if at_(i, x, v) not in up]
                rep.ob('C25.share', w + ': initialisation advances entry by entry', not bad, 'the next entry is %s' % [show(y) for y in bad], fi)
                for s in ends:
                    stop = [c[3] for c, v in s.conds.items() if c[0] == 'op' and ((c[1] == '<' and not v) or (c[1] == '==' and v)) and c[2] == x]
                    stop += [c[2] for c, v in s.conds.items() if c[0] == 'op' and c[1] == '==' and v and c[3] == x]
                    if stop:
                        ended = True
                        rep.ob('C25.share', w + ': initialisation ends with the share of the domain', all(at_(i, x, y) == last for y in stop), 'ends at %s, the share ends at %s' % ([show(at_(i, x, y)) for y in stop], show(last)), fi, trace=s.trace())
            rep.ob('C25.share', w + ': initialisation runs to the end of the share', ended, 'no path fills the share', fi)
            n += 1
    return n

def run(rep):
    rep.rule('C25.add', 'adding puts the new position first and keeps the most recent others in order')
    rep.rule('C25.remove', 'removing takes out exactly the position, keeps the order of the others and leaves the list packed')
    rep.rule('C25.lookup', 'a look-up yields a stored position, or a negative number for an empty list')
    rep.rule('C25.inside', 'no operation reads or writes outside the list')
    rep.rule('C25.table', 'initialisation writes only inside the table')
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'nompi3']).items():
        cs = caches(p)
        if not cs: continue
        n = 0
        for cls, full in cs: n += lists(rep, p, full)
        rep.floor(cfg + ': list transformers', n, 20)
        t = table(rep, p)
        rep.floor(cfg + ': table writes', t, 1)
        coverage(rep, p)
