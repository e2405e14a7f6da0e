"""C05: the block home mapping (rank, domain, slot) and its inverse, as normalised terms."""
from .base import *

B = 'grid::level::Blocked::'
# closed forms proved in DESIGN.md (C05) to be a bijection with the stated ranges
def schemes(i, R, D, r, d, N, L):
    rr = dict(blockRank=binop('%', i, R), blockDomain=binop('%', binop('/', i, R), D), blockOffset=binop('/', binop('/', i, R), D),
              local2global=add(mul(add(mul(i, D), d), R), r))
    bl = dict(blockRank=binop('/', i, mul(L, D)), blockDomain=binop('%', binop('/', i, L), D), blockOffset=binop('%', i, L),
              local2global=add(i, mul(add(d, mul(r, D)), L)))
    return {'round robin': rr, 'contiguous': bl}

def roles(rep, p, cls='grid::level::Blocked'):
    """terms of the accessors: total blocks, ranks, domains, own rank, own domain"""
    out = {}
    def one(name, this=None):
        fn = p.fn(name)
        res, e = summary(p, fn, rep=rep)
        vs = set(e.load(s, v) for s, v in res)
        if len(vs) != 1: raise AnalysisBroken(name + ': not a plain accessor')
        return vs.pop()
    out['N'] = one(B + 'totalBlockCount')
    out['d'] = one('grid::level::Level::numaDomainId')
    base = {}
    def rel(accessor, inner):
        """term of this->accessor().inner()"""
        fa = p.fn(accessor); ra, e = summary(p, fa, rep=rep)
        (s, v), = ra[:1]
        addr = ('&', v[1]) if v[0] == 'L' else v
        addr = e.addr(v[1]) if v[0] == 'L' else v
        fi = p.fn(inner)
        e2 = Engine(p, Client()); rs = e2.run(fi, this=addr)
        return e2.load(rs[0][0], rs[0][1])
    cm = 'mpi::MPIComm' if p.by_name.get('mpi::MPIComm::rank') else 'mpi::NoMPIComm'
    cm = [n.rsplit('::', 1)[0] for n in p.by_name if n.startswith('mpi::') and n.endswith('::rank')][0]
    out['r'] = rel('grid::level::Level::comm', cm + '::rank'); out['R'] = rel('grid::level::Level::comm', cm + '::size')
    nm = [n.rsplit('::', 1)[0] for n in p.by_name if n.startswith('numa::') and n.endswith('Comm::totalDomains')][0]
    out['D'] = rel('grid::level::Level::numa', nm + '::totalDomains')
    return out

def run_config(rep, p, cfg):
    ro = roles(rep, p)
    terms, fns = {}, {}
    for n, a in (('blockRank', 1), ('blockDomain', 1), ('blockOffset', 1), ('blockNodeOffset', 1), ('local2global', 1), ('localBlockCount', 0), ('nodeBlockCount', 0)):
        fn = p.fn(B + n, required=n != 'nodeBlockCount'); fns[n] = fn
        if fn is None: continue
        res, e = summary(p, fn, args=[S('id')] if a else [], rep=rep)
        terms[n] = [(s, e.load(s, v)) for s, v in res]
    const = {k: v for k, v in ro.items() if is_c(v)}
    def leafs(**kw):
        env = {}
        for k, v in ro.items():
            if not is_c(v): env[show(v)] = kw[k]
        env['id'] = kw.get('id')
        return leaf_env(env)
    def val(n, **kw):
        lf = leafs(**kw)
        sel = select(terms[n], lf)
        if len(sel) < 1: return None
        try: return evaluate(sel[0][1], lf)
        except Unknown as u: raise AnalysisBroken('%s depends on %s' % (n, u))
    # 1. normal forms against the proven schemes
    i = S('id')
    L = terms['localBlockCount'][0][1]
    match = None
    for name, sc in schemes(i, ro['R'], ro['D'], ro['r'], ro['d'], ro['N'], L).items():
        if all(len(terms[k]) == 1 and terms[k][0][1] == v for k, v in sc.items()):
            match = name
    if match: rep.notes.append('[%s] normal forms are exactly those of the %s scheme (bijective by the lemma in DESIGN.md)' % (cfg, match))
    else: rep.notes.append('[%s] normal forms differ from the proven schemes; decided by instantiation only' % cfg)
    # 2. instantiation with constants (decides inequality of the normal forms)
    rng = random.Random(SEED)
    n = 0
    cases = [(N, R, D) for N in (1, 2, 3, 5, 7, 12, 13, 24) for R in (1, 2, 3, 4) for D in (1, 2, 3)]
    cases = [(N, R if 'R' not in const else const['R'][1], D if 'D' not in const else const['D'][1]) for N, R, D in cases]
    for N, R, D in sorted(set(cases)):
        L = val('localBlockCount', N=N, R=R, D=D, r=0, d=0)
        kw = dict(N=N, R=R, D=D)
        w = 'for %d blocks, %d ranks, %d domains' % (N, R, D)
        rep.ob('C05.capacity', 'slots per domain cover all blocks', L is not None and L != 'undefined' and L * R * D >= N and L >= 1, 'slots per domain = %s %s' % (L, w), fns['localBlockCount'])
        if 'nodeBlockCount' in terms: rep.ob('C05.capacity', 'slots per node', val('nodeBlockCount', r=0, d=0, **kw) == (L * D if isinstance(L, int) else None), 'slots per node = %s %s' % (val('nodeBlockCount', r=0, d=0, **kw), w), fns['nodeBlockCount'])
        if not isinstance(L, int): continue
        homes = {}
        for b in range(N):
            k = tuple(val(f, id=b, r=0, d=0, **kw) for f in ('blockRank', 'blockDomain', 'blockOffset', 'blockNodeOffset'))
            ok = all(isinstance(x, int) for x in k) and 0 <= k[0] < R and 0 <= k[1] < D and 0 <= k[2] < L
            rep.ob('C05.range', 'home of a block is in range', ok, 'block %d has home (rank %s, domain %s, slot %s) %s, %s slots per domain' % (b, k[0], k[1], k[2], w, L), fns['blockOffset'])
            rep.ob('C05.nodeslot', 'slot in the node = slot + domain * slots per domain', k[3] == (k[2] + k[1] * L if ok else None), 'block %d: %s %s' % (b, k, w), fns['blockNodeOffset'])
            rep.ob('C05.inject', 'no two blocks share a home', k[:3] not in homes, 'blocks %s and %d share %s %s' % (homes.get(k[:3]), b, k[:3], w), fns['blockOffset'])
            homes[k[:3]] = b
        for r in range(R):
            for d in range(D):
                if 'r' in const and r != const['r'][1]: continue
                for sl in range(L):
                    g = val('local2global', id=sl, r=r, d=d, **kw)
                    if (r, d, sl) in homes:
                        rep.ob('C05.inverse', 'enumerating the slots of a domain yields its blocks', g == homes[(r, d, sl)],
                               'rank %d domain %d slot %d is the home of block %d but enumerates block %s %s' % (r, d, sl, homes[(r, d, sl)], g, w), fns['local2global'])
                    else:
                        rep.ob('C05.inverse', 'unused slots enumerate no block', isinstance(g, int) and g >= N, 'rank %d domain %d slot %d is unused but enumerates %s %s' % (r, d, sl, g, w), fns['local2global'])
        n += 1
    # large values: no truncation to narrower integers
    wt = {}
    for nme in ('blockDomain', 'blockOffset', 'blockNodeOffset', 'local2global', 'localBlockCount', 'blockRank'):
        res, e = summary(p, fns[nme], args=[S('id')] if nme != 'localBlockCount' else [], rep=rep, widths=True)
        wt[nme] = [(s, e.load(s, v)) for s, v in res]
    for _ in range(40):
        N = rng.randint(1 << 33, 1 << 45); R = rng.choice((1, 3, 64, 1000)); D = rng.choice((1, 2, 4))
        R = const['R'][1] if 'R' in const else R; D = const['D'][1] if 'D' in const else D
        b = rng.randint(1 << 32, N - 1)
        def v2(nm, **kw):
            lf = leafs(N=N, R=R, D=D, **kw); sel = select(wt[nm], lf)
            return evaluate(sel[0][1], lf) if sel else None
        L = v2('localBlockCount', r=0, d=0, id=0)
        k = tuple(v2(f, id=b, r=0, d=0) for f in ('blockRank', 'blockDomain', 'blockOffset', 'blockNodeOffset'))
        back = v2('local2global', id=k[2], r=k[0], d=k[1]) if all(isinstance(x, int) for x in k) and ('r' not in const or k[0] == const['r'][1]) else None
        ok = all(isinstance(x, int) for x in k) and 0 <= k[0] < R and 0 <= k[1] < D and 0 <= k[2] < L and k[3] == k[2] + k[1] * L and back == b
        rep.ob('C05.wide', 'large block numbers are not truncated', ok, 'block %d of %d, %d ranks, %d domains: home %s, enumerated back as %s' % (b, N, R, D, k, back), fns['blockOffset'])
        n += 1
    rep.floor('constant instantiations [%s]' % cfg, n, 20)

def loader(rep, p, cfg):
    """the loading loop of the fully loaded grid stores block local2global(i) in slot i for every slot below the block count"""
    A = 'grid::level::'
    for fn in p.fns('grid::level::Full::open')[:1 if TIER == 'quick' else None]:
        for N, L, order in ((5, 2, [1, 3]), (5, 3, [1, 3, 5]), (4, 1, [3]), (4, 2, [5, 6]), (7, 3, [4, 5, 6])):
            loads = []
            def load(e, s, nd, o, a):
                pos = a[1]; pos = e.load(s, pos) if pos[0] == 'L' else pos
                base = pos[1][1] if pos[0] == '&' and pos[1][0] == 'e' else (pos[1] if pos[0] == '&' else None)
                v = tuple(s.store.get(('e', base, C(i))) for i in range(2))
                s.ts = (s.ts or ()) + ((v, e.load(s, a[2]), e.load(s, a[3])),)
                return ZERO
            tab = {i: g for i, g in enumerate(order)}
            def l2g(e, s, nd, o, a):
                i = e.load(s, a[0])
                return C(tab.get(i[1], 10 ** 6)) if is_num(i) else ('op', 'l2g', i)
            def cbp(e, s, nd, o, a):
                b = e.load(s, a[0]); dst = e.load(s, a[1])
                for k in range(2): e.write(s, e.elem_loc(dst, C(k)) if k else e.deref(dst), ('op', 'bpos', b, C(k)))
                return ZERO
            def alloc(e, s, nd, o, a):
                e.write(s, a[1][1], ('&', ('h', 'data', 0, 'd')))
                s.ts = (s.ts or ()) + (('alloc', e.load(s, a[0])),)
                return C(0)
            h = {A + 'Blocked::open': C(0), A + 'Blocked::localBlockCount': C(L), A + 'Blocked::totalBlockCount': C(N), A + 'Blocked::local2global': l2g,
                 A + 'Blocked::calcBlockPosition': cbp, A + 'Level::dimensions': C(2), A + 'Level::typeSize': S('ts'), A + 'Blocked::totalBlockSize': S('bs'),
                 A + 'Blocked::blockSize': lambda e, s, nd, o, a: (S('blockSizes') if not a else ('op', 'bsz', e.load(s, a[0]))),
                 A + 'Level::closeInputFile': ZERO}
            for n in p.by_name:
                if n.startswith('types::') and n.endswith('::load'): h[n] = load
                if n.startswith('numa::') and n.endswith('::allocate'): h[n] = alloc
            res, e = summary(p, fn, h, rep=rep)
            for s, v in res:
                if v != C(0): continue
                ev = [x for x in (s.ts or ()) if x[0] != 'alloc']; al = [x for x in (s.ts or ()) if x[0] == 'alloc']
                want = []
                for i, g in enumerate(order[:L]):
                    if g < N:
                        pos = tuple(mul(('op', 'bpos', C(g), C(k)), ('op', 'bsz', C(k))) for k in range(2))
                        want.append((pos, S('blockSizes'), mul(mul(S('ts'), S('bs')), C(i))))
                def off(t):
                    if t[0] != '&': return None
                    l = t[1]
                    if l == ('h', 'data', 0, 'd'): return ZERO
                    return l[2] if l[0] == 'e' and l[1] == ('h', 'data', 0, 'd') else None
                got = [(x[0], x[1], off(x[2])) for x in ev]
                rep.ob('C05.load', 'every slot is loaded with the block it is the home of', sorted(map(repr, got)) == sorted(map(repr, want)),
                       'slots enumerate blocks %s of %d: loads are %s' % (order, N, [([show(q) if q else None for q in a], show(b), show(c) if c else None) for a, b, c in got]), fn)
                rep.ob('C05.load', 'storage for all slots of the domain', len(al) == 1 and al[0][1] == mul(mul(S('ts'), S('bs')), C(L)), 'allocated %s' % [show(x[1]) for x in al], fn)

def run(rep):
    rep.rule('C05.inverse', 'the normalised terms of rank/domain/slot of a block and of the slot enumeration are mutually inverse (normal form of a proven scheme, otherwise instantiation)')
    rep.rule('C05.range', 'rank < ranks, domain < domains, slot < slots per domain'); rep.rule('C05.wide', 'the same with 32-bit truncations kept in the terms and large constants')
    rep.rule('C05.load', 'effects of the loading loop under constant block counts: one load per used slot, at slot*block bytes, starting at the block position')
    for c in (('default', 'mt', 'nonuma_nompi') if TIER == 'quick' else ALL):
        p = programs([c])[c]
        run_config(rep, p, c); loader(rep, p, c)
