"""C04: position -> index mapping and the reported extent, as normalised value terms."""
import math, itertools
from .base import *

ARITH = ('default', 'mt')
NAN = math.nan

def outarr(s, pname, i):
    b = ('d', ('i', ('p', pname)))
    e = Engine.__new__(Engine)
    for k in ((b,) if i == 0 else ()) + (('e', b, C(i)),):
        if k in s.store: return s.store[k]
    return None

def argleaf(pname, i): return '(*%s)' % pname if i == 0 else '(*%s)[%d]' % (pname, i)

def pos2index(rep, p):
    fn = p.fn('grid::level::Level::pos2index')
    pn = [x['n'] for x in fn['params']]
    if len(pn) < 2: raise AnalysisBroken('pos2index: unexpected signature')
    rng = random.Random(SEED)
    for d in range(1, 5):
        res, e = summary(p, fn, store={F('m_dims'): C(d)}, rep=rep)
        vals = []
        for _ in range(60 if TIER == 'quick' else 400):
            size = [rng.choice((1, 2, 3, 7, 64, 1000)) for _ in range(d)]
            sc = [rng.choice((1.0, 0.5, 0.25, 2.0)) for _ in range(d)]
            off = [rng.choice((-3.0, 0.0, 2.5, 100.0)) for _ in range(d)]
            inv = [0 if size[i] == 1 else 1 / sc[i] for i in range(d)]
            pos = [rng.choice((rng.randint(-40, 4200) / 8.0, off[d - 1 - i] + sc[d - 1 - i] * rng.randint(-2, size[d - 1 - i] + 1),
                               off[d - 1 - i] + sc[d - 1 - i] * (rng.randint(-2, size[d - 1 - i] + 1) + 0.5),
                               off[d - 1 - i] + sc[d - 1 - i] * (rng.randint(-2, size[d - 1 - i] + 1) + 0.375),
                               math.inf, -math.inf)) for i in range(d)]
            vals.append((size, off, inv, pos))
        for size, off, inv, pos in vals:
            env = {}
            for i in range(d):
                env['this.m_size[%d]' % i] = size[i]; env['this.m_offset[%d]' % i] = off[i]
                env['this.m_scalingInv[%d]' % i] = inv[i]; env['this.m_scaling[%d]' % i] = (1 / inv[i]) if inv[i] else math.inf
                env[argleaf(pn[0], i)] = pos[i]
            leaf = leaf_env(env)
            sel = select(res, leaf)
            want = []
            for i in range(d):
                x = (pos[d - 1 - i] - off[i]) * inv[i]
                x = 0 if x != x or inv[i] == 0 else (math.floor(x + 0.5) if math.isfinite(x) else x)
                want.append(int(min(max(x, 0), size[i] - 1)))
            got = None
            for s, _ in sel:
                try: got = [(lambda t: evaluate(t, leaf) if t is not None else None)(outarr(s, pn[1], i)) for i in range(d)]
                except Unknown as u: raise AnalysisBroken('pos2index depends on ' + str(u))
                if got != want: break
            ok = bool(sel) and got == want
            rep.ob('C04.index', 'position to index, %d dimensions' % d, ok,
                   'extracted mapping gives %s instead of %s for pos=%s offset=%s 1/spacing=%s size=%s' % (got, want, pos, off, inv, size), fn)
            if not ok: break

def open_extent(rep, p):
    """Level::open: size/offset/spacing of dimension i are those of file dimension i; min/max/inverse spacing"""
    fn = p.fn('grid::level::Level::open')
    CC, VC = p.const('CELL_CENTERED'), p.const('VERTEX_CENTERED')
    SUC = C(0)
    for d in range(1, 5):
        for vp in (CC, VC):
            h = {'io::NetCdfReader::open': SUC, 'io::NetCdfReader::dimensions': C(d), 'io::NetCdfReader::NetCdfReader': ZERO,
                 'io::NetCdfReader::getSize': lambda e, s, n, o, a: ('op', 'fsize', e.load(s, a[0])),
                 'io::NetCdfReader::getOffset': lambda e, s, n, o, a: ('op', 'foff', e.load(s, a[0])),
                 'io::NetCdfReader::getScaling': lambda e, s, n, o, a: ('op', 'fscal', e.load(s, a[0])),
                 'types::BasicType::check': SUC}
            st = {F('m_numaComm'): ('&', ('h', 'numacomm', 0, 'numa::NumaComm'))}
            # the per-dimension paths are independent: dimension 0 is explored completely, the others on the regular path
            res, e = summary(p, fn, h, st, args=[None, None, C(vp)], rep=rep, client=OneDim(h, d))
            for _ in range(12):
                rng = random.Random(SEED * 1000 + _)
                size = [rng.choice((1, 2, 5, 64)) for _ in range(d)]
                off = [rng.choice((-4.0, 0.0, 3.5)) for _ in range(d)]
                scal = [math.inf if size[i] == 1 else rng.choice((0.5, -0.25, 2.0, -1.0, 1.0)) for i in range(d)]
                if _ > 8: scal[0] = rng.choice((-2.0, 0.25))
                env = {}
                leaf0 = leaf_env(env)
                def leaf(t):
                    if t[0] == 'op' and t[1] in ('fsize', 'foff', 'fscal') and is_num(t[2]) and 0 <= t[2][1] < d:
                        return {'fsize': size, 'foff': off, 'fscal': scal}[t[1]][t[2][1]]
                    raise Unknown(show(t))
                sel = [(s, v) for s, v in select(res, leaf) if v == C(0)]
                if not sel: continue
                for i in range(d):
                    inf = math.isinf(scal[i])
                    a, b = off[i], off[i] + (0 if inf else scal[i] * (size[i] - 1))
                    hc = 0 if inf or vp != CC else abs(scal[i]) * 0.5
                    want = dict(m_size=size[i], m_offset=off[i], m_min=-math.inf if inf else min(a, b) - hc, m_max=math.inf if inf else max(a, b) + hc,
                                m_scalingInv=0 if inf else 1 / scal[i], m_scaling=abs(scal[i]))
                    for f, w in want.items():
                        for s, _v in sel:
                            t = s.store.get(('e', F(f), C(i)))
                            try: g = evaluate(t, leaf) if t is not None else None
                            except Unknown as u: raise AnalysisBroken('Level::open: %s depends on %s' % (f, u))
                            ok = g is not None and g != 'undefined' and (g == w or (math.isfinite(w) and math.isfinite(g) and abs(g - w) < 1e-6 * (1 + abs(scal[i]) if not inf else 1)))
                            rep.ob('C04.extent', '%s of dimension %d of %d, %s' % (f[2:], i, d, 'cell centred' if vp == CC else 'vertex centred'), ok,
                                   'extracted value %s is %s instead of %s for size=%s offset=%s spacing=%s' % (show(t) if t else None, g, w, size[i], off[i], scal[i]), fn)

class OneDim(Summ):
    def __init__(self, hooks, d): Summ.__init__(self, hooks)

def accessors(rep, p):
    for name, field in (('min', 'm_min'), ('max', 'm_max'), ('delta', 'm_scaling')):
        fn = p.fn('grid::level::Level::' + name)
        for d in range(1, 5):
            for n in range(d):
                res, e = summary(p, fn, store={F('m_dims'): C(d)}, args=[C(n)], rep=rep)
                for s, v in res:
                    v = e.load(s, v) if v else None
                    want = ('i', ('e', F(field), C(d - 1 - n)))
                    rep.ob('C04.order', 'Level::%s reads the reversed dimension' % name, v == want,
                           '%s(%d) of %d dimensions yields %s' % (name, n, d, show(v) if v else None), fn)
    fns = p.fns('grid::SimpleContainer::init')
    n = 0
    for fn in fns:
        for d in ((1, 4) if TIER == 'quick' else (1, 2, 3, 4)):
            hooks = {'grid::level::Level::dimensions': C(d)}
            for f in ('min', 'max', 'delta'):
                hooks['grid::level::Level::' + f] = (lambda f: lambda e, s, nd, o, a: ('op', 'lv', C(f), ('&', o), e.load(s, a[0])))(f)
            lname = [c for c in p.by_name if c.startswith('grid::level::') and c.endswith('::open')]
            for c in lname: hooks[c] = C(0)
            c = Summ(hooks, inline=lambda f, nm: not nm.startswith('std::') and not nm.startswith('grid::level::'))
            res = []
            vec = {('f', F(x['n']), '#size'): C(2) for x in list(p.classes.get(fn['cls'], {}).get('fields', ())) + list(p.classes.get(fn['clsfull'], {}).get('fields', ()))}
            for store in ({}, vec):      # the level is added, the level exists already
                r, e = summary(p, fn, hooks, args=[None, None, None, None, None, C(0)], client=c, rep=rep, store=store)
                res += [(s, v, store) for s, v in r]
            for s, v, store in res:
                if v != C(0): continue
                for i in range(d):
                    for f in ('min', 'max'):
                        t = s.store.get(('e', F('m_' + f), C(i)))
                        lvl0 = lambda l: not store or element(l) is not None and element(l)[0] == C(0) and locroot(element(l)[1]) == locroot(THISLOC)
                        ok = t is not None and t[0] == 'op' and t[1] == 'lv' and t[2] == C(f) and lvl0(t[3][1]) and t[4] == C(i)
                        rep.ob('C04.container', 'container %s is that of level 0' % f, ok, 'm_%s[%d] = %s' % (f, i, show(t) if t else None), fn)
                        n += 1
                t = s.store.get(F('m_dimensions'))
                rep.ob('C04.container', 'container dimensions', t == C(d), 'dimensions = %s' % (show(t) if t else None), fn)
    rep.floor('container extent obligations', n, 10)
    for f in ('getMin', 'getMax'):
        fn = p.fn('grid::Container::' + f)
        res, e = summary(p, fn, args=[S('n')], rep=rep)
        for s, v in res:
            v = e.load(s, v)
            rep.ob('C04.container', f, v == ('i', ('e', F('m_' + f[3:].lower()), S('n'))), '%s returns %s' % (f, show(v)), fn)
    for fn in p.fns('grid::SimpleContainer::getDelta'):
        hooks = {'grid::level::Level::delta': lambda e, s, nd, o, a: ('op', 'lv', C('delta'), ('&', o), e.load(s, a[0]))}
        res, e = summary(p, fn, hooks, args=[S('n'), S('level')], rep=rep)
        for s, v in res:
            rep.ob('C04.container', 'getDelta', v[:3] == ('op', 'lv', C('delta')) and v[4] == S('n') and v[3][0] == '&' and (element(v[3][1]) or [None])[0] == S('level'), 'returns %s' % show(v), fn)
    # the grid hands the request to a container with the same dimension
    for f, args in (('getMin', [S('n')]), ('getMax', [S('n')]), ('getDelta', [S('n'), S('level')])):
        fn = p.fn('grid::Grid::' + f)
        hooks = {'grid::Container::' + f: lambda e, s, nd, o, a: ('op', 'cont') + tuple(e.load(s, x) for x in a)}
        res, e = summary(p, fn, hooks, args=args, rep=rep)
        for s, v in res:
            v = e.load(s, v) if v else v
            rep.ob('C04.container', 'Grid::' + f, v == ('op', 'cont') + tuple(args), 'returns %s' % (show(v) if v else None), fn)

def queries(rep, p):
    """every query converts exactly the position it was given"""
    n = 0
    for name in ('Full', 'FullDist', 'Cache', 'CacheDist', 'PassThrough'):
        for fn in p.fns('grid::level::%s::getAt' % name)[:1 if TIER == 'quick' else None]:
            seen = []
            def h(e, s, nd, o, a):
                seen.append((o, e.load(s, a[0])))
                return ZERO
            c = Summ({'grid::level::Level::pos2index': h}, inline=lambda f, nm: nm.startswith('grid::level::'))
            res, e = summary(p, fn, client=c, rep=rep)
            pn = fn['params'][1]['n']
            rep.ob('C04.query', '%s::getAt converts the given position' % name, bool(seen) and all(o == THISLOC and v == ('i', ('p', pn)) for o, v in seen),
                   'pos2index called with %s' % [show(v) for _, v in seen], fn)
            n += 1
    rep.floor('query functions', n, 5)

def run(rep):
    rep.rule('C04.index', 'index[i] of the normalised summary of pos2index equals clamp(floor((pos[d-1-i]-offset[i])/spacing[i]+0.5), 0, size[i]-1), also for infinities and dimensions without spacing')
    rep.rule('C04.extent', 'stores of Level::open equal the per-dimension size/offset/spacing of the file and the extent derived from them')
    rep.rule('C04.order', 'min/max/delta of dimension n read element d-1-n'); rep.rule('C04.container', 'container and grid report the values of level 0 / the requested level unchanged')
    rep.rule('C04.query', 'every query passes its own position to the conversion')
    for c in ARITH if TIER == 'quick' else ALL:
        p = programs([c])[c]
        pos2index(rep, p); open_extent(rep, p); accessors(rep, p); queries(rep, p)
