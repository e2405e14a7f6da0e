"""C06: block sizes, block numbering and addressing inside a block."""
from .base import *
from .c04 import outarr, argleaf

A = 'grid::level::'

def ceil(a, b): return -(-a // b)

def block_open(rep, p):
    fn = p.fn(A + 'Blocked::open')
    names = [x['n'] for x in fn['params']]
    if len(names) < 5: raise AnalysisBroken('Blocked::open: unexpected signature')
    rng = random.Random(SEED)
    for d in ((1, 2, 3) if TIER == 'quick' else (1, 2, 3, 4)):
        for td in range(-1, d + 2):
            hooks = {A + 'Level::open': C(0)}
            res, e = summary(p, fn, hooks, {F('m_dims'): C(d)}, args=[None, None, None, C(td)], rep=rep, budget=3000000)
            for _ in range(25):
                S_ = [rng.choice((1, 2, 3, 10, 63, 64, 65, 100, 130)) for _ in range(d)]
                bs = [rng.choice((0, 0, -1, -7, 1, 2, 3, 64, 1000)) for _ in range(d)]
                env = {}
                for i in range(d):
                    env['this.m_size[%d]' % i] = S_[i]; env[argleaf(names[2], i)] = bs[i]
                leaf = leaf_env(env)
                sel = select(res, leaf)
                want = []
                for i in range(d):
                    u = bs[d - 1 - i]
                    b = (1 if d - 1 - i == td else 64) if u == 0 else S_[i] if u < 0 else u
                    want.append(min(b, S_[i]))
                wb = [ceil(S_[i], want[i]) for i in range(d)]
                tb = tbs = 1
                for i in range(d): tb *= wb[i]; tbs *= want[i]
                ctx = 'sizes %s, requested block sizes %s, time dimension %d' % (S_, bs, td)
                if not sel: rep.ob('C06.blocksize', 'opening succeeds', False, 'no path for ' + ctx, fn); continue
                for s, v in sel:
                    def g(loc):
                        t = s.store.get(loc)
                        if t is None: return None
                        try: return evaluate(t, leaf)
                        except Unknown as u: raise AnalysisBroken('Blocked::open: value depends on ' + str(u))
                    got = [g(('e', F('m_blockSize'), C(i))) for i in range(d)]
                    rep.ob('C06.blocksize', 'effective block sizes, %d dimensions%s' % (d, ', with time dimension' if 0 <= td < d else ''), got == want, 'block sizes are %s instead of %s: %s' % (got, want, ctx), fn)
                    got = [g(('e', F('m_blocks'), C(i))) for i in range(d)]
                    rep.ob('C06.blocks', 'number of blocks covers each dimension', got == wb, 'blocks per dimension are %s instead of %s: %s' % (got, wb, ctx), fn)
                    rep.ob('C06.blocks', 'total number of blocks and total block size', (g(F('m_totalBlocks')), g(F('m_totalBlockSize'))) == (tb, tbs),
                           'totals (%s, %s) instead of (%s, %s): %s' % (g(F('m_totalBlocks')), g(F('m_totalBlockSize')), tb, tbs, ctx), fn)

def numbering(rep, p):
    f1, f2, f3 = p.fn(A + 'Blocked::blockByCoords'), p.fn(A + 'Blocked::calcBlockPosition'), p.fn(A + 'Blocked::calcOffsetInBlock')
    rng = random.Random(SEED)
    for d in range(1, 5):
        st = {F('m_dims'): C(d)}
        r1, e = summary(p, f1, store=st, rep=rep, widths=True); r2, e2 = summary(p, f2, store=st, rep=rep, widths=True); r3, e3 = summary(p, f3, store=st, rep=rep, widths=True)
        n1, n3 = f1['params'][0]['n'], f3['params'][0]['n']
        bn, pn = [x['n'] for x in f2['params']]
        for k in range(60 if TIER == 'quick' else 500):
            big = k % 4 == 3
            S_ = [rng.choice((1, 2, 3, 7, 10, 65)) if not big else rng.choice((1, 1000, 65536, 99999)) for _ in range(d)]
            b = [min(S_[i], rng.choice((1, 2, 3, 5, 64) if not big else (1, 64, 17))) for i in range(d)]
            nb = [ceil(S_[i], b[i]) for i in range(d)]
            ix = [rng.randint(0, S_[i] - 1) if k % 3 else S_[i] - 1 for i in range(d)]
            env = {'this.m_dims': d}
            tb = tbs = 1
            for i in range(d):
                env['this.m_blocks[%d]' % i] = nb[i]; env['this.m_blockSize[%d]' % i] = b[i]; env['this.m_size[%d]' % i] = S_[i]
                tb *= nb[i]; tbs *= b[i]
            env['this.m_totalBlocks'] = tb; env['this.m_totalBlockSize'] = tbs
            for i in range(d): env[argleaf(n1, i)] = ix[i]; env[argleaf(n3, i)] = ix[i]
            ctx = 'index %s, sizes %s, block sizes %s' % (ix, S_, b)
            def ev(res, e, lf, get):
                sel = select(res, lf)
                if not sel: return None
                try: return get(*sel[0])
                except Unknown as u: raise AnalysisBroken('block numbering depends on %s' % u)
            lf = leaf_env(env)
            blk = ev(r1, e, lf, lambda s, v: evaluate(e.load(s, v), lf))
            rep.ob('C06.number', 'block number in range, %d dimensions' % d, isinstance(blk, int) and 0 <= blk < tb, 'block number %s of %s for %s' % (blk, tb, ctx), f1)
            lf2 = leaf_env(dict(env, **{bn: blk}))
            pos = ev(r2, e2, lf2, lambda s, v: [evaluate(outarr(s, pn, i), lf2) if outarr(s, pn, i) is not None else None for i in range(d)]) if isinstance(blk, int) else None
            rep.ob('C06.position', 'position of a block inverts the block number, %d dimensions' % d, pos == [ix[i] // b[i] for i in range(d)],
                   'block %s is placed at %s instead of %s for %s' % (blk, pos, [ix[i] // b[i] for i in range(d)], ctx), f2)
            off = ev(r3, e3, lf, lambda s, v: evaluate(e3.load(s, v), lf))
            w = 0
            for i in range(d): w = w * b[i] + ix[i] % b[i]
            rep.ob('C06.offset', 'offset inside a block is row-major in the stored block, %d dimensions' % d, off == w, 'offset %s instead of %s for %s' % (off, w, ctx), f3)

def loadstart(rep, p):
    """the cached block of an index is read from the first index of that block"""
    n = 0
    for fn in p.fns(A + 'Cache::loadBlock')[:1 if TIER == 'quick' else None]:
        inm, dn = [x['n'] for x in fn['params']]
        for d in range(1, 5):
            def load(e, s, nd, o, a):
                pos = e.load(s, a[1]); base = e.deref(pos)
                if base[0] == 'e' and base[2] == ZERO: base = base[1]
                s.ts = (tuple(e.read(s, ('e', base, C(i)) if (i or base[0] != 'd') else base) for i in range(d)), e.load(s, a[2]), e.load(s, a[3]), a[0])
                return ZERO
            h = {x: load for x in p.by_name if x.startswith('types::') and x.endswith('::load')}
            res, e = summary(p, fn, h, {F('m_dims'): C(d)}, rep=rep)
            rng = random.Random(SEED)
            for s, v in res:
                ok = s.ts is not None
                rep.ob('C06.load', 'a missing block is read from the file', ok, 'no load on a path', fn)
                if not ok: continue
                pos, bsz, dst, _ = s.ts
                rep.ob('C06.load', 'block is read with the block sizes', bsz in (('i', F('m_blockSize')), ('&', ('e', F('m_blockSize'), ZERO))), 'size argument is %s' % show(bsz), fn)
                rep.ob('C06.load', 'block is read into the given slot', dst == ('i', ('p', dn)), 'destination is %s' % show(dst), fn)
                for _ in range(15):
                    b = [rng.choice((1, 2, 5, 64)) for _ in range(d)]; ix = [rng.randint(0, 300) for _ in range(d)]
                    env = {'this.m_dims': d}
                    for i in range(d): env['this.m_blockSize[%d]' % i] = b[i]; env[argleaf(inm, i)] = ix[i]
                    try: got = [evaluate(x, leaf_env(env)) for x in pos]
                    except Unknown as u: raise AnalysisBroken('loadBlock depends on %s' % u)
                    rep.ob('C06.load', 'block is read from its first index, %d dimensions' % d, got == [ix[i] - ix[i] % b[i] for i in range(d)],
                           'start %s for index %s and block sizes %s' % (got, ix, b), fn)
                    n += 1
    rep.floor('load start instantiations', n, 20)

def element(rep, p):
    """the converted element is base + size * (slot * block + offset)"""
    n = 0
    idx = lambda nm: (lambda e, s, nd, o, a: ('op', nm) + tuple(a[0] if a[0][0] != 'L' else e.load(s, a[0]) for _ in (0,)))
    for cls in ('Full', 'Cache', 'FullDist', 'CacheDist', 'PassThrough'):
        for fn in p.fns(A + cls + '::getAt')[:1 if TIER == 'quick' else None]:
            def conv(e, s, nd, o, a):
                s.ts = (s.ts or ()) + (('convert', e.load(s, a[0]), e.load(s, a[1])),)
                return ZERO
            def get(e, s, nd, o, a):
                e.write(s, a[1][1], S('slot')); e.write(s, a[2][1], S('mem'))
                return ('op', 'old', e.load(s, a[0]))
            def load(e, s, nd, o, a):
                s.ts = (s.ts or ()) + (('load', e.load(s, a[1]), e.load(s, a[2]), e.load(s, a[3]), tuple(e.read(s, ('e', e.deref(e.load(s, a[2]))[1], C(i))) for i in range(4)) if e.deref(e.load(s, a[2]))[0] == 'e' else None),)
                return ZERO
            h = {A + 'Blocked::blockByCoords': idx('blk'), A + 'Blocked::blockOffset': idx('slot'), A + 'Blocked::calcOffsetInBlock': idx('inb'), A + 'Level::typeSize': S('ts'),
                 A + 'Blocked::totalBlockSize': S('bs'), A + 'Level::pos2index': ZERO, 'cache::CacheManager::get': get, A + 'Blocked::blockRank': idx('rank'), A + 'Blocked::blockDomain': idx('dom'),
                 A + 'Blocked::blockNodeOffset': idx('noff'), A + 'Cache::loadBlock': ZERO}
            for x in p.by_name:
                if x.startswith('types::') and x.endswith('::convert'): h[x] = conv
                if x.startswith('types::') and x.endswith('::load'): h[x] = load
                if x.startswith('numa::') and x.endswith('::threadId'): h[x] = S('thread')
            c = Summ(h, inline=lambda f, nm: nm.startswith('grid::level::'))
            if cls == 'PassThrough': h[A + 'Level::dimensions'] = C(4)       # all entries are looked at
            res, e = summary(p, fn, client=c, rep=rep)
            buf = ('i', ('p', fn['params'][0]['n']))
            for s, v in res:
                cv = [x for x in (s.ts or ()) if x[0] == 'convert']
                if not rep.ob('C06.element', '%s: exactly one element is converted per query' % cls, len(cv) == 1, '%d conversions on a path' % len(cv), fn, trace=s.trace()): continue
                src, dst = cv[0][1], cv[0][2]
                rep.ob('C06.element', '%s: the result goes to the caller buffer' % cls, dst == buf, 'destination %s' % show(dst), fn)
                l = e.deref(src)
                base, off = (l[1], l[2]) if l[0] == 'e' else (l, ZERO)
                n += 1
                if cls == 'PassThrough':
                    ld = [x for x in s.ts if x[0] == 'load']
                    ok = len(ld) == 1 and s.ts.index(ld[0]) < s.ts.index(cv[0]) and ld[0][3] == src and off == mul(S('ts'), S('thread'))
                    rep.ob('C06.element', 'PassThrough: reads one element into the buffer of the calling thread and converts it', ok, 'loads %s, converts %s' % ([show(x[3]) for x in ld], show(src)), fn)
                    ones = ld and ld[0][4] and all(x == ONE for x in ld[0][4])
                    rep.ob('C06.element', 'PassThrough: block of one element', bool(ones), 'size argument is %s' % ([show(x) for x in ld[0][4]] if ld and ld[0][4] else None), fn)
                    continue
                inb = [x for x in walk(off) if x[0] == 'op' and x[1] == 'inb']
                sl = [x for x in walk(off) if x[0] == 'op' and x[1] == 'slot']
                own = base == ('d', ('i', F('m_data')))
                cachebase = base == ('d', S('mem'))
                if not inb: want = None
                elif own and sl: want = mul(S('ts'), add(mul(sl[0], S('bs')), inb[0]))
                else: want = mul(S('ts'), inb[0])
                ok = want is not None and off == want and ((own and bool(sl)) or (cachebase and not sl))
                if ok and own: ok = sl[0][2][0] == 'op' and sl[0][2][1] == 'blk'
                same = len(set([x[2] for x in inb] + [x[2][2] for x in sl if x[2][0] == 'op' and x[2][1] == 'blk'])) == 1
                rep.ob('C06.element', '%s: address of the element' % cls, ok and same, 'converted from %s' % show(src), fn, trace=s.trace())
    rep.floor('converted elements', n, 5)

def walk(t):
    yield t
    if t[0] == 'op':
        for x in t[2:]:
            if isinstance(x, tuple): yield from walk(x)
    elif t[0] == 'poly':
        for m, _ in t[2]:
            for x in m: yield from walk(x)

def run(rep):
    rep.rule('C06.blocksize', 'stores of the block set-up equal: user value, 64 if 0 (1 in the time dimension), the dimension size if negative, never larger than the dimension; reversed dimension order')
    rep.rule('C06.number', 'block number, block position and in-block offset terms are mutually consistent (instantiated for 1..4 dimensions, 32-bit truncations kept)')
    rep.rule('C06.load', 'a missing block is read from index - index mod block size, with the block sizes, into the given slot'); rep.rule('C06.element', 'normal form of the converted address')
    for c in (('default',) if TIER == 'quick' else ALL):
        p = programs([c])[c]
        block_open(rep, p); numbering(rep, p); loadstart(rep, p); element(rep, p)
