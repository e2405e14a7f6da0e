"""C17: block reads. Clipping and strides on normal forms; the in-place spreading loop by an inductive invariant
(checked on the symbolic loop body), with constant propagation over small shapes when the loop has another form."""
from .c16 import *
from ..xfer import ptr
from .c29 import at
from ..bounds import Facts
import itertools

RS = random.Random(SEED * 7919 + 17)

def fld(n): return ('f', THISLOC, n)

class SpreadClient(NcClient):
    """memcpy as events; inner loops (bounded by the number of dimensions) are unrolled, the outer one is widened"""
    maxev = 4000
    def __init__(self, p, unroll=False):
        NcClient.__init__(self, p); self.arr = []; self.exits = []; self.unroll = unroll; self.nest = {}
    def inner(self, fn):
        k = fn['id']
        if k not in self.nest:
            ls = loops_of(fn)
            self.nest[k] = {h for h in ls if any(h2 != h and h in b2 for h2, b2 in ls.items())}
        return self.nest[k]
    def branch(self, eng, st, fr, v, want):
        inn = self.inner(fr.fn)
        st.sym = frozenset(x for x in st.sym if not (x[0] == fr.fid and x[1] in inn))
    def loop(self, eng, st, fr, bid):
        if bid in self.inner(fr.fn): return
        self.arr.append((bid, st.copy(), st.loops.get((fr.fid, bid))))
    def widen_ts(self, old, new):
        return (new[0], tuple(e for e in new[1] if e[0] != 'memcpy')) if new else new
    def special(self, eng, st, fr, node, name, obj, args):
        if name.split('::')[-1] in ('memcpy', 'memmove'):
            a = [eng.load(st, x, fr, node) for x in args]
            self.emit(st, ('memcpy',) + tuple(a)); return [(st, a[0])]
        if name in ('std::copy', 'std::copy_backward', 'std::copy_n', 'std::move_backward') and len(args) == 3:
            a = [eng.load(st, x, fr, node) for x in args]
            if name == 'std::copy_n': t = ('memcpy', a[2], a[0], a[1])
            else:
                n = eng.pdiff(a[1], a[0])
                d = a[2] if name == 'std::copy' else eng.ptradd(a[2], n, -1)
                t = ('memcpy', d, a[0], n)
            self.emit(st, t); return [(st, ZERO)]
        return NcClient.special(self, eng, st, fr, node, name, obj, args)

def cells(off, vs):
    """byte offset / element size as a polynomial, None when the offset is no multiple of the element size"""
    q = subst(off, lambda t: ONE if t == vs else None)
    return q if mul(q, vs) == off else None

def prod(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r

class StopClient(NcClient):
    """stops behind the hyperslab read (what follows is analysed on its own)"""
    def __init__(self, p): NcClient.__init__(self, p); self.stops = []
    def special(self, eng, st, fr, node, name, obj, args):
        r = NcClient.special(self, eng, st, fr, node, name, obj, args)
        if name.startswith('nc_get_var'): self.stops.append((st.copy(), None)); return []
        return r
def stopped(p, fn, c, store, args, rep):
    e = Engine(p, c, 150000); st = State(); st.store.update(store)
    res = e.run(fn, args=args, st=st); rep.engine(p, e)
    return c.stops + res, e

class NotRecognised(Exception): pass

def prove_spread(p, fn, D, rep):
    """number of discharged steps; raises NotRecognised when the loop has another form or a step fails"""
    a = [S('a%d' % i) for i in range(D)]; b = [S('b%d' % i) for i in range(D)]
    vs = ('i', fld('m_varSize'))
    buf = S('buf'); P = {k: S(k) for k in ('offset', 'size', 'blockSize', 'imap')}
    imap = [prod(b[i + 1:]) for i in range(D)]; fs = [prod(a[i + 1:]) for i in range(D)]
    store = {fld('m_dimensions'): C(D)}
    for i in range(D):
        store[at(P['size'], i)] = a[i]; store[at(P['blockSize'], i)] = b[i]; store[at(P['imap'], i)] = imap[i]
    c = SpreadClient(p); c.D = D
    res, e = summary(p, fn, store=store, args=[P['offset'], P['size'], P['blockSize'], P['imap'], buf], client=c, rep=rep)
    facts0 = [('ge', sub(x, ONE)) for x in a] + [('ge', sub(y, x)) for x, y in zip(a, b)]
    def F(conds=()):
        f = Facts(conds)
        for _, t in facts0: f.add(t_ineq(t))
        return f
    def t_ineq(t):
        from ..bounds import lin
        return lin(t)
    n = 0
    # arrivals at the head of the loop that contains the copies
    def copies(s): return [x for x in c.evs(s) if x[0] == 'memcpy']
    heads = {bid for bid, s, sn in c.arr if sn and copies(s)}
    if D == 1 and not heads:
        return 1                     # nothing to spread in one dimension
    if len(heads) != 1: raise NotRecognised('%d loops copy' % len(heads))
    H = heads.pop()
    def idx(v):
        base, off = ptr(v)
        if base != buf: raise NotRecognised('copies outside of the block buffer')
        q = cells(off, vs)
        if q is None: raise NotRecognised('copy at %s' % show(off))
        return q
    # roles: the variables whose values the copies use
    iter_ = [(s, dict(sn[1])) for bid, s, sn in c.arr if bid == H and sn]
    Bl = Fl = None
    for s, S0 in iter_:
        cp = copies(s)
        if len(cp) != 1: raise NotRecognised('%d copies in one iteration' % len(cp))
        if cp[0][3] != vs: raise NotRecognised('copies %s bytes' % show(cp[0][3]))
        B, Fx = idx(cp[0][1]), idx(cp[0][2])
        bl = {l for l, v in S0.items() if v == B and l[0] == 'v'}; fl = {l for l, v in S0.items() if v == Fx and l[0] == 'v'}
        Bl = bl if Bl is None else Bl & bl; Fl = fl if Fl is None else Fl & fl
    if not Fl: raise NotRecognised('the file index is no loop variable')
    Bl = sorted(Bl, key=repr)[0] if Bl else None; Fl = sorted(Fl, key=repr)[0]
    arrs = {}
    for s, S0 in iter_:
        for l, v in S0.items():
            if l[0] == 'e' and is_num(l[2]) and l[1][0] == 'v' and v[0] == 'phi': arrs.setdefault(l[1], set()).add(l[2][1])
    arrs = [k for k in arrs]
    if len(arrs) != 1: raise NotRecognised('%d position arrays' % len(arrs))
    pos = [('e', arrs[0], C(i)) for i in range(D)]
    for s, v in res:
        rd = [x for x in c.evs(s) if x[0].startswith('nc_get_var')]
        if len(rd) != 1 or rd[0][-1][1] != (tuple(('i', at(P['offset'], i)) for i in range(D)), tuple(a)): raise NotRecognised('hyperslab read')
    # 1. first arrival
    for bid, s, sn in c.arr:
        if bid != H or sn: continue
        pv = [s.store.get(l) for l in pos]
        if any(x is None for x in pv): raise NotRecognised('position not initialised')
        if pv != [sub(x, ONE) for x in a]: raise NotRecognised('starts at %s' % [show(x) for x in pv])
        if Bl is not None and s.store.get(Bl) != S_(pv, imap): raise NotRecognised('start of the buffer index')
        if s.store.get(Fl) != S_(pv, fs): raise NotRecognised('start of the file index')
        n += 1
    # 2. every iteration keeps: buffer index = sum pos*imap, file index = sum pos*fs, positions in range
    for s, S0 in iter_:
        pv = [S0[l] for l in pos]; F0 = S0[Fl]; B0 = S0[Bl] if Bl is not None else idx(copies(s)[0][1])
        if Bl is None and B0 != S_(pv, imap): raise NotRecognised('buffer index')
        def sb(t):
            def f(x):
                if x == B0 and x[0] == 'phi': return S_(pv, imap)
                if x == F0 and x[0] == 'phi': return S_(pv, fs)
                return None
            return subst(t, f)
        f = F()
        for k, v in s.conds.items():
            if Bl is not None and B0 in syms(k) or F0 in syms(k): continue
            f.cond(k, v)
        for x, lim in zip(pv, a): f.add(t_ineq(x)); f.add(t_ineq(sub(sub(lim, ONE), x)))
        zero = {}
        for i, x in enumerate(pv):
            if f.prove(sub(ZERO, x)):
                if x[0] == 'phi': zero[x] = ZERO
                else: zero[a[i]] = ONE
        def z(t): return subst(sb(t), lambda x: zero.get(x))
        nv = [s.store[l] for l in pos]; F1 = s.store[Fl]
        if z(sub(F1, S_(nv, fs))) != ZERO: raise NotRecognised('file index not in step: %s' % show(z(sub(F1, S_(nv, fs)))))
        last = z(nv[0]) == C(-1)      # the element after the first one: the loop must end there
        if z(sub(F1, sub(S_(pv, fs), ONE))) != ZERO: raise NotRecognised('the file index does not go down by one')
        if Bl is not None and not last and z(sub(s.store[Bl], S_(nv, imap))) != ZERO: raise NotRecognised('buffer index not in step')
        for i in range(D):
            lo = sub(nv[i], ZERO) if i else add(nv[i], ONE)
            if not f.prove(lo) or not f.prove(sub(sub(a[i], ONE), nv[i])): raise NotRecognised('position %d leaves its range' % i)
        # the copy happens at a valid element: the file index is not negative
        g = Facts(); ok = False
        for k, v in s.conds.items():
            g.cond(k, v)
        if not g.prove(F0) and F0[0] == 'phi': raise NotRecognised('copies with a negative file index')
        n += 1
    # 3. ends only when nothing is left to move; skipped only when nothing has to move
    for s, v in res:
        cs = s.conds
        if all(e.decide(s, cmp('==', a[i], b[i])) is True for i in range(1, D)): continue
        f = Facts()
        for k, val in cs.items(): f.cond(k, val)
        done = False
        for t in [x for x in set().union(*[syms(k) for k in cs] or [set()]) if x[0] == 'phi' and x[3] == Fl]:
            Bp = ('phi', t[1], t[2], Bl)
            if f.prove(sub(ZERO, add(t, ONE))) or (Bl is not None and f.prove(sub(t, Bp))): done = True
        f2 = F(cs)
        Fi = S_([sub(x, ONE) for x in a], fs); Bi = S_([sub(x, ONE) for x in a], imap)
        if f2.prove(sub(ZERO, add(Fi, ONE))) or f2.prove(sub(Fi, Bi)): done = True
        if not done: raise NotRecognised('ends although elements may have to be moved')
        n += 1
    return n

def S_(pv, st):
    r = ZERO
    for x, y in zip(pv, st): r = add(r, mul(x, y))
    return r

def shapes(D):
    lim = {1: 4, 2: 4, 3: 3, 4: 2}[D]      # loops of up to 80 iterations are unrolled
    one = [(x, y) for y in range(1, lim + 1) for x in range(1, y + 1)]
    for sh in itertools.product(one, repeat=D): yield [x for x, _ in sh], [y for _, y in sh]
    for _ in range(6):
        bb = [RS.randint(1, 5) for _ in range(D)]
        aa = [RS.randint(1, y) for y in bb]
        n = 1
        for x in aa: n *= x
        if n <= 70: yield aa, bb

def small_spread(p, fn, D, rep):
    """constant propagation through the loop for small shapes; returns (shapes, counterexample)"""
    k = 0; vs = 7
    for a, b in shapes(D):
        imap = [1] * D; fs = [1] * D
        for i in range(D - 2, -1, -1): imap[i] = imap[i + 1] * b[i + 1]; fs[i] = fs[i + 1] * a[i + 1]
        P = {x: S(x) for x in ('offset', 'size', 'blockSize', 'imap')}
        store = {fld('m_dimensions'): C(D), fld('m_varSize'): C(vs)}
        for i in range(D):
            store[at(P['size'], i)] = C(a[i]); store[at(P['blockSize'], i)] = C(b[i]); store[at(P['imap'], i)] = C(imap[i])
        c = SpreadClient(p); c.D = D
        e = Engine(p, c, 400000); e.unroll = 2000
        st = State(); st.store.update(store)
        try: res = e.run(fn, args=[P['offset'], P['size'], P['blockSize'], P['imap'], S('buf')], st=st)
        except Budget: raise AnalysisBroken('the spreading loop does not end for constant shapes') if not k else NotRecognised('budget')
        if len(res) != 1: raise AnalysisBroken('the spreading loop is undecided for constant shapes')
        s, _ = res[0]
        mem = {i * vs + j: (i, j) for i in range(fs[0] * a[0]) for j in range(vs)}
        size = imap[0] * b[0] * vs
        for ev in c.evs(s):
            if ev[0] != 'memcpy': continue
            (bd, od), (bs, os_) = ptr(ev[1]), ptr(ev[2])
            if bd != S('buf') or bs != S('buf') or not all(is_num(x) for x in (od, os_, ev[3])): return k, 'copies from or to somewhere else (%s)' % show(ev[1])
            od, os_, ln = od[1], os_[1], ev[3][1]
            if od < 0 or od + ln > size: return k, 'shape %s of %s: writes at byte %d of %d' % (a, b, od, size)
            old = [mem.get(os_ + j) for j in range(ln)]
            for j in range(ln): mem[od + j] = old[j]
        for pos in itertools.product(*[range(x) for x in a]):
            src = sum(x * y for x, y in zip(pos, fs)); dst = sum(x * y for x, y in zip(pos, imap))
            if any(mem.get(dst * vs + j) != (src, j) for j in range(vs)):
                return k, 'shape %s of %s: the element at %s is not stored at index %d of the block' % (a, b, list(pos), dst)
        k += 1
    return k, None

def same(t, want, doms, rounds=300):
    """terms equal as normal forms or on random instantiations (returns a counterexample)"""
    if t == want: return None
    for _ in range(rounds):
        env = doms()
        lf = leaf_env(env)
        try:
            x, y = evaluate(t, lf), evaluate(want, lf)
        except Unknown as u: raise AnalysisBroken('cannot instantiate %s (%s)' % (show(t), u))
        if x != y: return env, x, y
    return None

def clip(rep, p):
    n = 0
    K = itertools.count()
    for fn in p.fns('io::NetCdfReader::getBlock'):
        T = fn['targs'][0]
        for D in range(1, 5):
            c = StopClient(p) if T == 'void' else NcClient(p)
            c.D = D
            ms = ('i', fld('m_size'))
            res, e = summary(p, fn, store={fld('m_dimensions'): C(D)}, args=[S('block'), S('offset'), S('size')], client=c, rep=rep) if T != 'void' else stopped(p, fn, c, {fld('m_dimensions'): C(D)}, [S('block'), S('offset'), S('size')], rep)
            seen = set()
            def dom():
                env = {}
                for i in range(D):
                    N = RS.randint(1, 12); o = RS.randint(0, N - 1); b = RS.randint(1, 14)
                    for key, val in (('m_size', N), ('offset', o), ('size', b)):
                        l = at(ms if key == 'm_size' else S(key), i)
                        env[showloc(l)] = val
                return env
            samples = [dom() for _ in range(120)]
            hits = 0
            def val(x, i, env): return env[showloc(at(x, i))]
            for s, v in res:
                evs = c.evs(s); rd = [x for x in evs if x[0].startswith('nc_get_var')]
                w = 'getBlock<%s>, %d dimension%s' % (T, D, 's' if D > 1 else '')
                def ob(rule, what, ok, msg): rep.ob(rule, '%s: %s' % (w, what), ok, msg, fn, trace=s.trace())
                ob('C17.once', 'one read per block', len(rd) == 1, '%d netCDF reads' % len(rd))
                if len(rd) != 1: continue
                r = rd[0]; name = r[0]
                n += 1
                varm = 'varm' in name; vara = 'vara' in name
                if not varm and not vara: ob('C17.once', 'reads a hyperslab', False, 'reads with ' + name); continue
                ob('C17.once', 'reads the variable of this reader', r[1] == ('i', fld('m_file')) and r[2] == ('i', fld('m_variable')), 'reads variable %s of file %s' % (show(r[2]), show(r[1])))
                arrs = r[-1][1]
                bufv = r[7] if varm else r[5]
                ob('C17.buffer', 'the data goes to the start of the block', bufv == S('block'), 'reads into %s' % show(bufv))
                start, count = arrs[0], arrs[1]
                stride = arrs[2] if varm else None; imap = arrs[3] if varm else None
                if stride is not None: ob('C17.stride', 'consecutive elements are read', all(x == ONE for x in stride), 'file stride %s' % [show(x) for x in stride])
                for i in range(D):
                    ob('C17.start', 'dimension %d starts at the requested index' % i, start[i] == ('i', at(S('offset'), i)), 'starts at %s' % show(start[i]))
                # counts and strides on every instantiation that takes this path
                sig = (start, count, imap, tuple(sorted(((k, b) for k, b in s.conds.items()), key=repr)))
                if sig in seen: continue
                seen.add(sig)
                good = True
                for env in samples:
                    lf = leaf_env(env)
                    if not select([(s, v)], lf): continue
                    hits += 1
                    for i in range(D):
                        N, o, b = val(ms, i, env), val(S('offset'), i, env), val(S('size'), i, env)
                        try: x = evaluate(count[i], lf)
                        except Unknown as u: raise AnalysisBroken('cannot instantiate the element count %s: %s' % (show(count[i]), u))
                        if x != min(b, N - o): ob('C17.clip', 'dimension %d reads the in-range part' % i, False, 'dimension of size %d, start %d, block size %d: reads %s elements' % (N, o, b, x)); good = False
                        if imap is not None:
                            want = 1
                            for j in range(i + 1, D): want *= val(S('size'), j, env)
                            try: y = evaluate(imap[i], lf)
                            except Unknown as u: raise AnalysisBroken('cannot instantiate the stride %s: %s' % (show(imap[i]), u))
                            if y != want: ob('C17.layout', 'dimension %d has the stride of the block' % i, False, 'block %s: stride %s, expected %s' % ([val(S('size'), j, env) for j in range(D)], y, want)); good = False
                    if not good: break
                if good:
                    ob('C17.clip', 'reads the in-range part', True, '')
                    if imap is not None: ob('C17.layout', 'strides', True, '')
                if not varm and T != 'void': ob('C17.layout', 'rows of a partly filled block are spread out', False, 'reads without a memory mapping')
            rep.floor('instantiations of getBlock<%s> in %d dimensions' % (T, D), hits, 50)
    return n

def spread(rep, p):
    n = 0
    for fn in p.fns('io::NetCdfReader::getVar', required=False):
        if fn.get('targs') != ['void']: continue
        for D in range(1, 5):
            w = 'unmapped types, %d dimension%s' % (D, 's' if D > 1 else '')
            if len(fn['params']) == 5:
                try:
                    k = prove_spread(p, fn, D, rep)
                    rep.ob('C17.spread', w, True); n += k
                    rep.notes.append('%s: inductive invariant, %d steps' % (w, k))
                    continue
                except (NotRecognised, Budget, KeyError) as x:
                    rep.notes.append('%s: no invariant (%s)' % (w, x))
                k, bad = small_spread(p, fn, D, rep)
                rep.notes.append('%s: %d small shapes by constant propagation' % (w, k))
                rep.ob('C17.spread', w, bad is None, str(bad), fn)
                n += k
    if not n: raise AnalysisBroken('no reader for element types without a built-in netCDF type')
    return n

def axes(rep, p):
    n = 0; D = 3
    base = {fld('m_dimensions'): C(D)}
    for g, rule in (('getSize', 'C17.size'), ('getOffset', 'C17.offset'), ('getScaling', 'C17.scaling')):
        fn = p.fn('io::NetCdfReader::' + g)
        for i in range(0, D + 2):
            c = NcClient(p); c.D = D
            res, e = summary(p, fn, store=dict(base), args=[C(i)], client=c, rep=rep)
            size = ('i', at(('i', fld('m_size')), i))
            for s, v in res:
                v = e.load(s, v); evs = c.evs(s); n += 1
                def ob(what, ok, msg): rep.ob(rule, '%s(%d): %s' % (g, i, what), ok, msg, fn, trace=s.trace())
                look = [x for x in evs if x[0] == 'nc_inq_varid']; rd = [x for x in evs if x[0].startswith('nc_get')]
                if i >= D:
                    want = {'getSize': ONE, 'getOffset': ZERO, 'getScaling': ZERO}[g]
                    ob('dimensions the file does not have', num(v) == num(want), 'is %s' % show(v)); continue
                if g == 'getSize': ob('the size of that dimension', v == size, 'is %s' % show(v)); continue
                for x in look:
                    nm = x[2]
                    ob('the coordinate variable is named like the dimension', nm == ('i', at(('i', fld('m_names')), i)) and x[1] == ('i', fld('m_file')), 'looks up %s' % show(nm))
                failed = any('nc_inq_varid' in show(k) and not b for k, b in s.conds.items())
                one = e.decide(s, cmp('==', size, ONE))
                for x in rd:
                    ob('reads the coordinate variable', x[0] == 'nc_get_var1_double' and x[1] == ('i', fld('m_file')) and x[2][:2] == ('op', 'inq_varid'), '%s of %s' % (x[0], show(x[2])))
                if failed: ob('no read without a coordinate variable', not rd, 'reads a variable that was not found')
                idx = {C(k): x[3] for k, x in enumerate(rd)}
                if g == 'getOffset':
                    if failed: ob('index coordinates start at zero', num(v) == 0, 'is %s' % show(v))
                    else: ob('the first coordinate', v[:2] == ('op', 'get_var1_double') and idx.get(v[2]) == ZERO, 'is %s, the coordinate at index %s' % (show(v), show(idx.get(v[2], v)) if v[:1] == ('op',) else '?'))
                else:
                    if one is True: ob('one cell has infinite width', num(v) == float('inf'), 'is %s' % show(v))
                    elif failed: ob('index coordinates have distance one', num(v) == 1, 'is %s' % show(v))
                    else:
                        bad = None
                        for _ in range(60):
                            N = RS.randint(2, 40); co = [RS.choice([-3.0, 0.5, 2.0]) + RS.randint(1, 9) * 0.25 * j for j in range(N)]
                            co = [x + RS.random() for x in co]
                            def leaf(t, N=N, co=co):
                                if t == size: return N
                                if t[:2] == ('op', 'get_var1_double'):
                                    ix = evaluate(idx[t[2]], lambda q: N if q == size else (_ for _ in ()).throw(Unknown(show(q))))
                                    if not 0 <= ix < N: raise IndexError(ix)
                                    return co[ix]
                                raise Unknown(show(t))
                            try: x = evaluate(subst_calls(v), leaf)
                            except IndexError as ix: bad = 'reads the coordinate with index %s of %d' % (ix, N); break
                            except Unknown as u: raise AnalysisBroken('cannot instantiate the spacing %s: %s' % (show(v), u))
                            w = (co[-1] - co[0]) / (N - 1)
                            if x == 'undefined' or abs(x - w) > 1e-9 * max(1, abs(w)): bad = 'is %s for %d coordinates from %g to %g' % (x, N, co[0], co[-1]); break
                        ob('distance of the first and last coordinate over the number of cells', bad is None, str(bad))
    return n

def subst_calls(v):
    """file reads are opaque leaves"""
    return subst(v, lambda t: ('i', ('p', 'read', t)) if False else None)

def num(v):
    if is_num(v): return v[1]
    if v[0] in ('op', 'r') and 'inf' in show(v): return float('inf')
    return None

def header(rep, p):
    """open() keeps the size and the name of the dimension with the same index"""
    op = p.fn(RD + '::open'); n = 0
    for D in range(1, 5):
        class H(NcClient):
            def special(self, eng, st, fr, node, name, obj, args):
                r = NcClient.special(self, eng, st, fr, node, name, obj, args)
                if name == 'nc_inq_varndims' and r:
                    a = eng.load(st, args[2], fr, node)
                    eng.write(st, eng.canon(st, Engine.deref(a)), C(D))
                if obj is not None and name.endswith('operator=') and 'string' in name and args:
                    self.emit(st, ('name', eng.canon(st, obj), eng.load(st, args[0], fr, node)))
                return r
        c = H(p); c.D = D
        res, e = summary(p, op, client=c, rep=rep)
        for s, v in res:
            if e.load(s, v) != ZERO: continue
            tr = s.trace(); ev = c.evs(s); n += 1
            dims = [x for x in ev if x[0] == 'nc_inq_dim']
            look = [x for x in ev if x[0] == 'nc_inq_varid']
            rep.ob('C17.header', 'the requested variable is looked up', len(look) == 1 and look[0][2] == P_(op, 0), 'looks up %s' % [show(x[2]) for x in look], op, trace=tr)
            for x in ev:
                if x[0] in ('nc_inq_vardimid', 'nc_inq_varndims', 'nc_inq_vartype'):
                    rep.ob('C17.header', '%s asks for the requested variable' % x[0], x[2][:2] == ('op', 'inq_varid') or x[2] == s.store.get(fld('m_variable')), 'asks for %s' % show(x[2]), op, trace=tr)
            ms = s.store.get(fld('m_size'))
            for i in range(D):
                val = e.read(s, e.canon(s, at(ms, i))) if ms is not None else None
                ok = val is not None and val[:2] == ('op', 'inq_dim') and val[3] == C(3)
                k = val[2][1] if ok else None
                ok = ok and k < len(dims) and dims[k][2] == ('op', 'dimid', ZERO, C(i))
                rep.ob('C17.header', '%d dimensions: size of dimension %d' % (D, i), ok, 'the size stored is %s' % (show(val) if val else val), op, trace=tr)
            vsz = s.store.get(fld('m_varSize'))
            rep.ob('C17.header', 'the element size is that of the type of the variable', vsz is not None and vsz[:2] == ('op', 'inq_type') and any(x[0] == 'nc_inq_type' and x[2][:2] == ('op', 'inq_vartype') for x in ev), 'element size is %s' % (show(vsz) if vsz else vsz), op, trace=tr)
            names = [x for x in ev if x[0] == 'name']
            for x in names:
                ix = element(x[1]) or (ZERO,)
                src = Engine.deref(x[2]) if x[2] is not None and x[2][0] in ('&', 'i') else None
                before = [d for d in ev[:ev.index(x)] if d[0] == 'nc_inq_dim']
                k = [d for d in before if d[3] == ('out', src)] or before
                rep.ob('C17.header', '%d dimensions: name of dimension %s' % (D, show(ix[0])), bool(k) and k[-1][2] == ('op', 'dimid', ZERO, ix[0]), 'the name stored for dimension %s is that of %s' % (show(ix[0]), show(k[-1][2]) if k else '?'), op, trace=tr)
    return n

def P_(fn, i): return ('i', ('p', fn['params'][i]['n'] or 'arg%d' % i))

def run(rep):
    rep.rule('C17.once', 'a block is obtained with one hyperslab read of the variable of this reader')
    rep.rule('C17.start', 'the read starts at the requested index in every dimension')
    rep.rule('C17.clip', 'the number of elements read is min(block size, dimension size - start) in every dimension')
    rep.rule('C17.layout', 'the memory stride of dimension i is the product of the block sizes of the later dimensions')
    rep.rule('C17.stride', 'elements are consecutive in the file'); rep.rule('C17.buffer', 'data is stored from the start of the block')
    rep.rule('C17.spread', 'types without built-in mapping: every element read is moved to its place in the block, none is overwritten before it is moved, nothing is written elsewhere')
    rep.rule('C17.size', 'size of dimension i; one for dimensions the file does not have')
    rep.rule('C17.offset', 'first coordinate, zero without a coordinate variable')
    rep.rule('C17.scaling', '(last - first)/(size - 1), one without a coordinate variable, infinite for a single cell')
    rep.rule('C17.header', 'open() stores number, size and name of the dimensions of the requested variable in file order, and its element size')
    for cfg, p in programs(['default', 'nompi'] if TIER != 'quick' else ['default']).items():
        rep.floor('reads analysed', clip(rep, p), 20)
        rep.floor('steps of the spreading loop', spread(rep, p), 4)
        rep.floor('axis queries', axes(rep, p), 15)
        rep.floor('header paths', header(rep, p), 4)
