"""C23: parameters select the documented behaviour. The whole parameter space is finite: constants for the parameters,
the number of ranks and of NUMA domains are propagated through the selection code and the outcome is compared with the documented table."""
from .c22 import *
from .c09 import subterms
from ..strings import StrMixin, text
from ..locks import *

class ParamClient(StrMixin, Client):
    """parameter look-ups answered from a table; containers, communicators and registrations as events"""
    inlined = ('grid::Grid', 'types::', 'mpi::NoMPIComm')
    def __init__(self, p, params=None, size=4, domains=2):
        self.p = p; self.params = params; self.size = size; self.domains = domains; self.memo = {}
    def ev(self, st, *e): st.ts = (st.ts or ()) + (e,)
    def ts_syms(self, ts): return set()
    def keep_sym(self, s): return True
    def inline(self, eng, fn, name): return name.startswith(self.inlined) or fn.get('cls') is None and name.startswith('grid')
    def write(self, eng, st, fr, node, loc, val): self.str_write(eng, st, loc, val)
    def call(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name == 'grid::Grid::param' and self.params is not None:
            k, d, l = (ld(a) for a in args)
            if d is not None and d[0] == 'obj': d = eng.read(st, d[1])
            if text(k) is None: raise AnalysisBroken('parameter name not constant in ' + fr.fn['n'])
            self.ev(st, 'param', k[1], d, l)
            v = self.params.get(k[1])
            if isinstance(v, str): v = C(v)
            return [(st, v if v is not None else d)]
        if name == 'logError': return []  # utils::Logger ends the process when an error was logged
        if name == 'mpi::MPIComm::size': return [(st, C(self.size))]
        if name == 'mpi::MPIComm::rank': return [(st, ZERO)]
        if name in ('numa::Numa::totalDomains',): return [(st, C(self.domains))]
        if name == 'mpi::MPIComm::init': self.ev(st, 'comm', ld(args[0]) if args else None); return [(st, ZERO)]
        if name.split('::')[-1] == 'createContainer' and name.startswith('grid::'):
            fid = node.get('fn')
            if fid not in self.memo: self.memo[fid] = kind_of(self.p, fid)
            t = self.memo[fid]
            if t is not None: self.ev(st, 'create', t); return [(st, ('op', 'container', C(t), C(sum(1 for x in st.ts if x[0] == 'create'))))]
        if node['k'] == 'ctor' and name.startswith('grid::SimpleContainer'): return [(st, None)]
        r = self.str_call(eng, st, fr, node, name, obj, args)
        return r

_kinds = {}
def kind_of(p, fid):
    """what a container selection creates for a grid of floats"""
    k = (p.cfg, fid)
    if k in _kinds: return _kinds[k]
    class K(ParamClient):
        def call(self, eng, st, fr, node, name, obj, args):
            if name.split('::')[-1] == 'createContainer': return None
            return ParamClient.call(self, eng, st, fr, node, name, obj, args)
    st = State(); g = ('p', 'grid'); obj = ('h', ('type',), 0, 'types::BasicType<float>'); st.store[('f', g, 'm_type')] = ('&', obj)
    out = {made(s, v) for s, v in Engine(p, K(p, {})).run(p.funcs[fid], args=[('L', g)], st=st)}
    _kinds[k] = out.pop() if len(out) == 1 else None
    return _kinds[k]

def kind(t):
    """(grid, MPI, NUMA) of a container type"""
    m = re.search(r'level::(\w+)<(.*)', t or '')
    if not m: return (t, None, None)
    a = re.findall(r'transfer::(\w+)', m.group(2))
    mpi = next((x for x in a if x.startswith('MPI')), 'MPINo'); numa_ = next((x for x in a if x.startswith('Numa')), 'NumaNo')
    g = {'CacheDist': 'Cache', 'FullDist': 'Full'}.get(m.group(1), m.group(1))
    return (g, mpi, numa_)

def documented(p, mpi, numa_, grid, size, domains):
    g = {'CACHE': 'Cache', 'PASS_THROUGH': 'PassThrough'}.get(grid, 'Full')
    if g == 'PassThrough': return {('PassThrough', 'MPINo', 'NumaNo')}
    if size == 1 or mpi == 'OFF': m = 'MPINo'
    elif mpi == 'THREAD' and 'THREADSAFE_MPI' not in p.defs: m = 'MPIThread' + g
    else: m = 'MPIWin' + g
    if 'ASAGI_NOMPI' in p.defs: m = 'MPINo'
    if domains == 1 or numa_ == 'OFF' or (numa_ is None and 'ASAGI_NONUMA' in p.defs): return {(g, m, 'NumaNo')}
    if g == 'Cache': return {(g, m, 'NumaCache')}
    if numa_ != 'CACHE': return {(g, m, 'NumaFull')}
    return {(g, m, 'NumaFullCache')} if m != 'MPINo' else {(g, m, 'NumaFull'), (g, m, 'NumaFullCache')}

def selections(rep, p):
    n = 0
    fn = p.fn('grid::Grid::initContainers', required=False)
    if fn is None or not fn.get('blocks'):
        # whoever fills the containers
        l = [f for f in p.funcs.values() if f.get('cls') == 'grid::Grid' and f.get('blocks') and f['sn'] != 'createContainer' and any((c.get('n') or '').endswith('::createContainer') for c in calls(f))]
        if len(l) != 1: raise AnalysisBroken('cannot tell which function fills the containers')
        fn = l[0]
    nompi = 'ASAGI_NOMPI' in p.defs
    mpis = [None, 'OFF', 'THREAD', 'WINDOW', 'NONSENSE']; numas = [None, 'ON', 'OFF', 'CACHE', 'NONSENSE']; grids = [None, 'FULL', 'CACHE', 'PASS_THROUGH', 'NONSENSE']
    sizes = [1] if nompi else ([1, 4] if TIER == 'quick' else [1, 2, 5])
    doms = [1, 2] if TIER == 'quick' else [1, 2, 3]
    memo = {}
    for mpi, nu, gr, size, dom in itertools.product(mpis, numas, grids, sizes, doms):
        par = {k: v for k, v in (('MPI_COMMUNICATION', mpi), ('NUMA_COMMUNICATION', nu), ('GRID', gr)) if v}
        c = ParamClient(p, par, size, dom); e = Engine(p, c, 20000)
        st = State(); st.store[F('m_containers', '#size')] = ZERO
        res = e.run(fn, st=st); rep.engine(p, e)
        what = 'grid=%s mpi=%s numa=%s on %s, %s' % (gr, mpi, nu, 'one rank' if size == 1 else 'several ranks', 'one domain' if dom == 1 else 'several domains')
        want = documented(p, mpi, nu, gr, size, dom)
        win = any(x[1] == 'MPIWinCache' for x in want)
        n += 1
        if 'USE_MPI3' not in p.defs and win:
            # the library was built without support for windows: opening does not go on
            rep.ob('C23.window', 'windows without MPI-3 are refused', not res, '%s continues' % what, fn); continue
        rep.ob('C23.select', '%s creates containers' % what, len(res) >= 1, 'opening does not continue', fn)
        for s, v in res:
            ev = s.ts or (); tr = s.trace()
            def ob(rule, what_, ok, msg): rep.ob(rule, '%s: %s' % (what, what_), ok, msg, fn, None, tr)
            sz = s.store.get(F('m_containers', '#size'))
            ob('C23.every', 'one container per domain', sz == C(dom), 'size %s' % (show(sz) if sz else sz))
            got = []
            for i in range(dom):
                x = s.store.get(('e', F('m_containers'), C(i)))
                t = x[2][1] if x is not None and x[0] == 'op' and x[1] == 'container' else made(s, x)
                ob('C23.every', 'every domain gets storage', t is not None, 'domain %d: %s' % (i, show(x) if x is not None else 'nothing'))
                if t is not None:
                    ob('C23.select', 'the documented combination', kind(t) in want, 'creates %s, documented %s' % (kind(t), sorted(want)))
                    got.append(x)
            ob('C23.every', 'domains do not share a container', len(set(got)) == len(got), 'the same container is used for several domains')
            com = [x[1] for x in ev if x[0] == 'comm']
            off = mpi == 'OFF' and size > 1
            if off: ob('C23.comm', 'without MPI communication every rank is on its own', [mpival(x) for x in com] == ['ompi_mpi_comm_self'], 'the communicator is set to %s' % [mpival(x) for x in com])
            elif size > 1: ob('C23.comm', 'the communicator of the user is kept', not com, 'the communicator is set to %s' % [mpival(x) for x in com])
            for x in ev:
                if x[0] == 'param': ob('C23.param', 'grid-wide parameters are read from level 0', x[3] == ZERO, '%s is read from level %s' % (x[1], show(x[3])))
    return n

NAMES = ['GRID', 'grid', 'Grid', 'value-position', 'VALUE_POSITION', 'Value-Position', 'mpi_communication', 'MPI-Communication', 'numa-communication', 'time-dimension', 'cache-size', 'Cache_Hand-Spread',
         'variable', 'VARIABLE', 'Variable', 'block-size-0', 'BLOCK_SIZE_3', 'Block-Size_1']
VALUES = {'VARIABLE': ['z', 'Temp-2m', 'a_B', '-x', 'FULL'], 'BLOCK_SIZE_': ['12', '-1', '1'], 'number': ['-1', '0', '128', '+7'], 'option': ['full', 'Pass-Through', 'PASS_THROUGH', 'cell-centered', 'Vertex_Centered', 'window', 'Off', 'thread', 'on', 'cache', 'no-such-option-1']}
NUM = ('TIME_DIMENSION', 'CACHE_SIZE', 'CACHE_HAND_SPREAD')

def storing(rep, p):
    fn = p.fn('grid::Grid::setParam'); n = 0
    for nm in NAMES:
        key = nm.upper().replace('-', '_')
        raw = key == 'VARIABLE' or key.startswith('BLOCK_SIZE_')
        vals = VALUES['VARIABLE'] if key == 'VARIABLE' else VALUES['BLOCK_SIZE_'] if raw else VALUES['number'] if key in NUM else VALUES['option']
        for val in vals:
            want = val if raw or key in NUM else val.upper().replace('-', '_')
            for level, have in (((0, 0), (0, 3)) if n % 4 else ((0, 0), (2, 0), (2, 5), (1, 2))):
                st = State(); st.store[F('m_params', '#size')] = C(have); st.store[('g', 'std::basic_string::npos')] = C(StrMixin.NPOS)
                c = ParamClient(p); e = Engine(p, c, 20000); e.unroll = 60
                res = e.run(fn, args=[C(nm), C(val), C(level)], st=st); rep.engine(p, e); n += 1
                if not res: rep.ob('C23.store', 'setting a parameter returns', False, 'no path for %s' % nm, fn)
                for s, v in res:
                    def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, None, s.trace())
                    m = [(k[1][1][1], k[1][2], x) for k, x in s.store.items() if k[0] == 'f' and k[2] == 'second' and k[1][0] == 'e' and k[1][1][0] == 'f' and k[1][1][2] == '#map']
                    for o, k, x in m:
                        if text(k) is None or text(x) is None: raise AnalysisBroken('cannot follow the text of parameter %s=%s' % (nm, val))
                    ob('C23.store', 'one parameter is stored', len(m) == 1, '%d parameters are stored for %s=%s' % (len(m), nm, val))
                    for o, k, x in m:
                        ob('C23.store', 'the parameter is stored for its level', o == ('e', F('m_params'), C(level)), 'level %d is stored in %s' % (level, showloc(o)))
                        ob('C23.name', 'the name of %s is recognised in every spelling' % key, k == C(key), '%s is stored as %s' % (nm, k[1]))
                        ob('C23.value', ('%s is kept as given' if want == val and (raw or key in NUM) else 'the value of %s is recognised in every spelling') % key, x == C(want), '%s=%s is stored as %s' % (nm, val, x[1]))
                    sz = s.store.get(F('m_params', '#size'))
                    ob('C23.store', 'no level loses its parameters', sz is not None and sz[0] == 'c' and sz[1] == max(have, level + 1), '%d levels before, %s afterwards' % (have, show(sz)))
    return n

class LookClient(Client):
    def call(self, eng, st, fr, node, name, obj, args):
        if name == 'utils::StringUtils::parse':
            a = [eng.load(st, x, fr, node) for x in args]
            if a[0][0] == 'obj': a[0] = eng.read(st, a[0][1])
            return [(st, ('op', 'parse', C(' '.join(eng.p.funcs.get(node.get('fn'), {}).get('targs') or node.get('targs') or [])), a[0]))]
    def inline(self, eng, fn, name): return name.startswith('grid::')

def looking(rep, p):
    n = 0
    eng = Engine(p, Client())
    for fn in [f for f in p.fns('grid::Grid::param') if f.get('blocks')]:
        dn, ln = fn['params'][1]['n'], fn['params'][2]['n']
        pn = fn['params'][0]['n']
        short = 'param<%s>' % ','.join(fn.get('targs') or [])
        e = Engine(p, LookClient()); res = e.run(fn); rep.engine(p, e)
        m = ('e', F('m_params'), S(ln))
        seen = set()
        for s, v in res:
            n += 1
            def ob(what, ok, msg): rep.ob('C23.param', '%s: %s' % (short, what), ok, msg, fn, None, s.trace())
            if v is not None and v[0] == 'obj': v = e.read(s, v[1])
            below = eng.decide(s, cmp('<', S(ln), ('i', F('m_params', '#size'))))
            inn = [(a, pol) for a, pol in s.conds.items() if 'in' in [t[1] for t in subterms(a) if t[0] == 'op']]
            there = None
            for a, pol in inn:
                z = subst(a, lambda t: ONE if t[0] == 'op' and t[1] == 'in' else None)
                if z in (ZERO, ONE): there = (z == ONE) == pol
            ok_key = all(t[2] == ('&', m) and t[3] == S(pn) for a, _ in inn for t in subterms(a) if t[0] == 'op' and t[1] == 'in')
            ob('the parameter is looked up by its name in its level', ok_key, 'looks up %s' % [show(a) for a, _ in inn])
            if v == S(dn):
                seen.add('default'); ob('the default is used only if the parameter is not set', below is False or there is False, 'the default is returned although the parameter is set')
            elif v is not None and v[0] == 'op' and v[1] == 'parse':
                seen.add('value')
                ob('only levels with parameters are looked at', below is True, 'the parameters of a level without any are read')
                ob('the value that is returned is the one stored', there is True and v[3] == ('i', ('f', ('e', ('f', m, '#map'), S(pn)), 'second')), 'returns %s' % show(v))
            else: ob('the value or the default is returned', False, 'returns %s' % (show(v) if v else v))
        rep.ob('C23.param', '%s: values and defaults are returned' % short, seen == {'default', 'value'}, 'only %s' % sorted(seen), fn)
    return n

class OpenC(ParamClient):
    inlined = ('grid::Grid',)
    def call(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        sn = name.split('::')[-1]
        if name.endswith('Numa::registerThread'):
            self.ev(st, 'register', ld(args[1]) if len(args) > 1 else None)
            out = Engine.deref(args[0]) if args[0][0] == '&' else args[0][1]
            s2 = st.copy(); eng.write(s2, out, ZERO); eng.write(st, out, ONE); self.ev(st, 'master'); self.ev(s2, 'slave')
            return [(st, ZERO), (s2, ZERO)]
        if name.startswith('threads::Once'): self.ev(st, 'once'); return [(st, ZERO)]
        if sn == 'domainId': return [(st, S('domain'))]
        if name.startswith('grid::') and sn == 'init' and len(args) == 6:
            a = tuple(ld(x) for x in args)
            b = Engine.deref(a[2])
            bs = tuple(st.store.get(('e', b[1], C(i)) if b[0] == 'e' else ('e', b, C(i))) for i in range(4))
            self.ev(st, 'init', obj, a, bs); return [(st, ZERO)]
        if name.startswith('numa::'): return [(st, ZERO)]
        return ParamClient.call(self, eng, st, fr, node, name, obj, args)

def opening(rep, p):
    n = 0; fn = p.fn('grid::Grid::open')
    lv = S(fn['params'][1]['n'])
    tag = {k: ('op', 'value', C(k)) for k in ['VARIABLE', 'CACHE_SIZE', 'CACHE_HAND_SPREAD'] + ['BLOCK_SIZE_%d' % i for i in range(4)]}
    dflt = dict([('VARIABLE', C('z')), ('CACHE_SIZE', None), ('CACHE_HAND_SPREAD', None), ('NUMA_COMMUNICATION', None)] + [('BLOCK_SIZE_%d' % i, ZERO) for i in range(4)])
    for nu in (None, 'ON', 'OFF', 'CACHE', 'NONSENSE'):
        for given in (True, False):
            par = dict(tag) if given else {}
            if nu: par['NUMA_COMMUNICATION'] = nu
            c = OpenC(p, par); e = Engine(p, c, 40000); e.unroll = 20
            res = e.run(fn); rep.engine(p, e); n += 1
            for s, v in res:
                ev = s.ts or (); tr = s.trace()
                def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, None, tr)
                reg = [x[1] for x in ev if x[0] == 'register']
                ob('C23.numa', 'the thread is registered once', len(reg) == 1, '%d times' % len(reg))
                for r in reg: ob('C23.numa', 'NUMA detection is on unless it is switched off', truth(r) == (ZERO if nu == 'OFF' else ONE), 'NUMA_COMMUNICATION=%s: %s' % (nu, show(r)))
                ini = [x for x in ev if x[0] == 'init']
                if ('slave',) in ev: ob('C23.open', 'only one thread per domain opens the container', not ini, 'another thread opens it'); continue
                ob('C23.open', 'the container of the domain is opened once', len(ini) == 1, '%d times' % len(ini))
                for x in ini:
                    ob('C23.open', 'the container of the own domain is opened', any(l == ('e', F('m_containers'), S('domain')) for l in through(e.canon(s, x[1]))), 'opens %s' % showloc(x[1]))
                    fnm, var, bp, cs, hs, l = x[2]
                    def exp(k, got, dv):
                        want = tag[k] if given else dv
                        if want is not None: ob('C23.open', '%s is passed on%s' % (k, '' if given else ' with its default'), got == want, 'passes %s' % (show(got) if got is not None else 'nothing'))
                    ob('C23.open', 'the file and the level are passed on', fnm == S(fn['params'][0]['n']) and l == lv, 'passes %s, %s' % (show(fnm), show(l)))
                    exp('VARIABLE', var, C('z')); exp('CACHE_SIZE', cs, C(128)); exp('CACHE_HAND_SPREAD', hs, C(-1))
                    for i in range(4): exp('BLOCK_SIZE_%d' % i, x[3][i], ZERO)
                for x in ev:
                    if x[0] == 'param':
                        if x[1] in tag: ob('C23.param', '%s is read for the level being opened' % x[1], x[3] == lv, 'read from level %s' % show(x[3]))
                        else: ob('C23.param', 'grid-wide parameters are read from level 0', x[3] == ZERO, '%s is read from level %s' % (x[1], show(x[3])))
    return n

def creating(rep, p):
    """value position and time dimension reach the container"""
    n = 0
    sel = [f for f in p.funcs.values() if f['sn'] == 'createContainer' and f.get('blocks') and f['cls'].startswith('grid::Grid')]
    byl = {}
    for f in sel:
        if 'types::ArrayType<unsigned char>, ' in f['clsfull'] or True: byl.setdefault(level(f['clsfull']), []).append(f)
    V, Ce = p.const('VERTEX_CENTERED'), p.const('CELL_CENTERED')
    for lname, fs in sorted(byl.items()):
        f = max(fs, key=lambda f: len(f['clsfull']))
        for vp, want in ((None, Ce), ('CELL_CENTERED', Ce), ('VERTEX_CENTERED', V), ('NONSENSE', Ce)):
            for td in (None, ('op', 'value', C('TIME_DIMENSION'))):
                class K(ParamClient):
                    def call(self, eng, st, fr, node, name, obj, args):
                        if name.split('::')[-1] == 'createContainer': return None
                        if node['k'] == 'ctor' and name.startswith('grid::SimpleContainer'):
                            self.ev(st, 'new', tuple(x if x is not None and x[0] in ('obj',) else eng.load(st, x, fr, node) if j >= 3 else x for j, x in enumerate(args))); return [(st, None)]
                        return ParamClient.call(self, eng, st, fr, node, name, obj, args)
                st = State(); g = ('p', 'grid'); obj = ('h', ('type',), 0, 'types::BasicType<float>'); st.store[('f', g, 'm_type')] = ('&', obj)
                par = {'VALUE_POSITION': vp} if vp else {}
                if td: par['TIME_DIMENSION'] = td
                e = Engine(p, K(p, par)); res = e.run(f, args=[('L', g)], st=st); rep.engine(p, e); n += 1
                for s, v in res:
                    new = [x[1] for x in s.ts or () if x[0] == 'new']
                    def ob(what, ok, msg): rep.ob('C23.create', '%s: %s' % (lname, what), ok, msg, f, None, s.trace())
                    ob('one container is created', len(new) == 1, '%d' % len(new))
                    for a in new:
                        locs = [e.canon(s, x[1]) if x is not None and x[0] in ('L', 'obj') else None for x in a[:3]]
                        ob('with the communicator and the NUMA domains of the grid', locs[:2] == [('f', g, 'm_comm'), ('f', g, 'm_numa')], 'with %s' % [showloc(x) if x else x for x in locs[:2]])
                        ob('with the time dimension%s' % ('' if td else ' -1 by default'), a[3] == (td or C(-1)), 'with %s' % show(a[3]))
                        ob('the value position %s' % (vp or '(default)'), a[4] == C(want), 'is %s' % show(a[4]))
                    for x in s.ts or ():
                        if x[0] == 'param': rep.ob('C23.param', 'grid-wide parameters are read from level 0', x[3] == ZERO, '%s is read from level %s' % (x[1], show(x[3])), f)
    return n

def handing(rep, p):
    """the container hands the parameters to the level that is opened, the level opens that file and variable"""
    n = 0
    for fn in [f for f in p.funcs.values() if f['sn'] == 'init' and (f.get('cls') or '').startswith('grid::') and len(f['params']) == 6 and f.get('blocks')]:
        class K(Client):
            def call(self, eng, st, fr, node, name, obj, args):
                if name.startswith('grid::level::') and name.split('::')[-1] == 'open':
                    st.ts = (st.ts or ()) + (('open', eng.canon(st, obj), tuple(eng.load(st, x, fr, node) for x in args)),)
                    s2 = st.copy(); err = S('error'); eng.assume(s2, cmp('!=', err, ZERO), True)
                    return [(st, ZERO), (s2, err)]
                if node['k'] == 'ctor' and name.startswith('grid::level::'):
                    st.ts = (st.ts or ()) + (('new', eng.canon(st, obj)),); return [(st, None)]
            def inline(self, eng, f, nm): return not nm.startswith('grid::level::')
            def ts_syms(self, ts): return set()
            def keep_sym(self, s): return True
        for have, lvl in ((0, 0), (0, 2), (3, 1), (2, 2)):
            e = Engine(p, K(), 60000); st = State(); st.store[F('m_levels', '#size')] = C(have)
            ps = [S(x['n']) for x in fn['params']]; ps[5] = C(lvl)
            res = e.run(fn, args=ps, st=st); rep.engine(p, e)
            for s, v in res:
                n += 1; op = [x for x in s.ts or () if x[0] == 'open']
                def ob(what, ok, msg): rep.ob('C23.level', '%s: %s' % (fn['cls'], what), ok, msg, fn, None, s.trace())
                ob('one level is opened', len(op) == 1, '%d levels are opened' % len(op))
                for x in op:
                    l = x[1]; tgt = s.store.get(('e', F('m_levels'), C(lvl)), ('i', ('e', F('m_levels'), C(lvl))))
                    ob('the level asked for is opened', Engine.deref(tgt) == l, 'level %d: opens %s' % (lvl, showloc(l)[-80:]))
                    want = [ps[0], ps[1], ps[2], ('i', F('m_timeDimension')), ps[3], ps[4], ('i', F('m_valuePos'))]
                    ob('with the parameters given', list(x[2]) == want, 'with %s' % [show(y) if y else y for y in x[2]])
                sz = s.store.get(F('m_levels', '#size'))
                ob('no level more than needed is created', sz == C(max(have, lvl + 1)), '%s levels' % (show(sz) if sz else sz))
                ob('levels that exist are kept', all(('e', F('m_levels'), C(i)) not in s.store or s.store[('e', F('m_levels'), C(i))] == ('i', ('e', F('m_levels'), C(i))) for i in range(have)), 'an existing level is replaced')
    return n

def run(rep):
    rep.rule('C23.select', 'for every combination of grid, MPI and NUMA parameters (set, unset, unknown), ranks and domains the container created is the documented one')
    rep.rule('C23.every', 'every domain gets a container of its own')
    rep.rule('C23.comm', 'the communicator is replaced by MPI_COMM_SELF exactly if MPI communication is switched off')
    rep.rule('C23.window', 'windows are refused without MPI-3')
    rep.rule('C23.name', 'parameter names are stored in upper case with underscores')
    rep.rule('C23.value', 'option values are stored in upper case with underscores, numbers and variable names as given')
    rep.rule('C23.store', 'a parameter is stored for its level and no other parameter is lost')
    rep.rule('C23.param', 'a parameter is looked up by name in the right level; the default is used only if it is not set')
    rep.rule('C23.open', 'opening passes each parameter with its documented default to the container of the own domain')
    rep.rule('C23.numa', 'NUMA detection is on unless switched off')
    rep.rule('C23.create', 'value position and time dimension reach the container')
    rep.rule('C23.level', 'the container opens the level asked for with the parameters given')
    t = {}
    for cfg in (['default', 'mt', 'nompi3', 'nonuma_nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        for k, f in (('parameter combinations', selections), ('stored parameters', storing), ('look-up paths', looking), ('open', opening), ('containers created', creating), ('levels opened', handing)):
            t[k] = t.get(k, 0) + f(rep, p)
    for k, m in (('parameter combinations', 1000), ('stored parameters', 200), ('look-up paths', 12), ('open', 20), ('containers created', 100), ('levels opened', 20)): rep.floor(k, t[k], m)
