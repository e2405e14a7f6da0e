"""C22: element types. Tables of constants (type codes, MPI datatypes, netCDF calls) by constant propagation,
overload resolution by a witness program, sizes by value numbering."""
from .c20 import *
from ..facts import witness
from .c29 import at
from ..bounds import Facts
from ..terms import *
import re, itertools

CT_ = {'BYTE': 'unsigned char', 'INT': 'int', 'LONG': 'long', 'FLOAT': 'float', 'DOUBLE': 'double'}
MPIT = {'unsigned char': {'byte', 'unsigned_char', 'uint8_t'}, 'int': {'int', 'int32_t'}, 'long': {'long', 'int64_t'}, 'float': {'float'}, 'double': {'double'}}
NC = {'unsigned char': {'uchar'}, 'int': {'int'}, 'long': {'long'}, 'float': {'float'}, 'double': {'double'}, 'void': {''}}
HOLDS = {'unsigned char': {'unsigned char', 'int', 'long', 'float', 'double', 'short', 'unsigned int', 'unsigned long', 'unsigned short', 'long long', 'unsigned long long', 'long double'},
         'int': {'int', 'long', 'double', 'long long', 'long double'}, 'long': {'long', 'long long', 'long double'},
         'float': {'float', 'double', 'long double'}, 'double': {'double', 'long double'}}
SZ = {'unsigned char': 1, 'int': 4, 'long': 8, 'float': 4, 'double': 8}
KINDS = ('Basic', 'Array', 'Struct')

def tname(k, T): return 'types::%sType<%s>' % (k, T)
def codes(p):
    e = next((v for v in p.enums.values() if v['n'] == 'asagi::Grid::Type'), None)
    if e is None: raise AnalysisBroken('no type codes')
    return {n: v for n, v in e['c']}
def mpiname(v):
    """name of a predefined MPI datatype"""
    v = mpival(v)
    return v[len('ompi_mpi_'):] if v and v.startswith('ompi_mpi_') else v
def mpival(v):
    if v is not None and v[0] == '&' and v[1][0] == 'g': return v[1][1]
    return None
def sizev(t): return C(SZ[t])
def norm_size(v):
    return subst(v, lambda t: C(SZ[t[2][1]]) if t[0] == 'op' and t[1] == 'sizeof' and t[2][1] in SZ else None) if v is not None else None

def made(s, v):
    """type of the object a pointer value points to (created on this path)"""
    return v[1][3] if v is not None and v[0] == '&' and v[1][0] == 'h' else None

def creation(rep, p):
    n = 0; cs = codes(p); eng = Engine(p, Client())
    rep.ob('C22.create', 'every type code has a C type', set(cs) == set(CT_), 'codes: %s' % sorted(cs))
    rep.ob('C22.create', 'type codes are distinct', len(set(cs.values())) == len(cs), str(cs))
    ctors = [f for f in p.fns('grid::Grid::Grid') if f.get('blocks')]
    class GC(Client):
        def call(self, eng, st, fr, node, name, obj, args):
            if name in ('grid::Grid::init',) or name.startswith(('fortran::', 'utils::')): return [(st, ZERO)]
        def inline(self, eng, fn, name): return name.startswith('types::') or fn.get('cls') == 'grid::Grid'
    for code, T in CT_.items():
        if code not in cs: continue
        v = C(cs[code])
        for fn in ctors:
            ps = fn['params']
            if len(ps) <= 2 and 'Type' in fn['T'][ps[0]['t']]:
                for arr in ((0, 1) if len(ps) == 2 else (0,)):
                    e = Engine(p, GC()); res = e.run(fn, args=[v] + ([C(arr)] if len(ps) == 2 else [])); rep.engine(p, e)
                    want = tname('Array' if arr else 'Basic', T)
                    for s, r in res:
                        n += 1; got = made(s, s.store.get(F('m_type')))
                        rep.ob('C22.create', '%s creates the %s of %s' % (code, 'array' if arr else 'value', T), got == want, 'creates %s' % got, fn, None, s.trace())
            elif len(ps) == 4:
                for more in (1, 2):
                    st = State()
                    tv = P(fn, 3); st.store[at(tv, 0)] = v
                    other = next(k for k in CT_ if k != code)
                    if more == 2: st.store[at(tv, 1)] = C(cs[other])
                    e = Engine(p, GC()); e.unroll = 6
                    res = e.run(fn, args=[C(more)], st=st); rep.engine(p, e)
                    if not res: raise AnalysisBroken('no path through the structure constructor')
                    for s, r in res:
                        n += 1; o = s.store.get(F('m_type')); got = made(s, o)
                        rep.ob('C22.create', '%s first creates the structure of %s' % (code, T), got == tname('Struct', T), 'creates %s' % got, fn, None, s.trace())
                        if got != tname('Struct', T) or 'ASAGI_NOMPI' in p.defs: continue
                        struct_fields(rep, p, fn, s, o[1], more, [code, other], eng)
                        n += 1
    return n

def struct_fields(rep, p, fn, s, obj, more, members, eng):
    f = lambda x: ('f', obj, x)
    tr = s.trace()
    def ob(what, ok, msg): rep.ob('C22.struct', what, ok, msg, fn, None, tr)
    used_ = struct_call(p, obj[3], rep)
    if used_ is None: ob('the structure is described with MPI_Type_create_struct', False, 'no such call in the check of %s' % obj[3]); return
    sub = lambda t: subst(t, lambda x: s.store.get(f(x[1][2]), x) if x[0] == 'i' and x[1][0] == 'f' and x[1][1] == THISLOC else None)
    cnt, bl, dis, ty = (sub(x) for x in used_)
    ob('the number of members is the one given', eng.decide(s, cmp('==', cnt, C(more))) is True, 'count %s' % show(cnt))
    for i in range(more):
        for nm, arrv, k in (('block length', bl, 1), ('displacement', dis, 2)):
            got = s.store.get(at(arrv, i))
            want = ('i', at(P(fn, k), i))
            ob('member %d: %s as given' % (i, nm), got == want, '%s' % (show(got) if got is not None else 'not set'))
        got = s.store.get(at(ty, i))
        T = CT_[members[i]]
        ob('member %d of type %s has the MPI type of %s' % (i, members[i], T), mpiname(got) in MPIT[T], 'MPI type %s' % (mpiname(got) or got))

_sc = {}
def struct_call(p, cl, rep):
    k = (p.cfg, cl)
    if k in _sc: return _sc[k]
    r = None
    for fn in [f for f in p.funcs.values() if f.get('clsfull') == cl and f['sn'] == 'check' and f.get('blocks')]:
        c = TypeClient(p); e = Engine(p, c); res = e.run(fn); rep.engine(p, e)
        for s, v in res:
            for x in c.evs(s):
                if x[0] == 'MPI' and x[1] == 'MPI_Type_create_struct': r = x[2][:4]
    _sc[k] = r
    return r

class SizeClient(TypeClient):
    """the variable in the file has the given size"""
    def __init__(self, p, vs): TypeClient.__init__(self, p); self.vs = vs
    def special(self, eng, st, fr, node, name, obj, args):
        if name == 'io::NetCdfReader::getVarSize': return [(st, self.vs)]
        return TypeClient.special(self, eng, st, fr, node, name, obj, args)

def sized_engine(p, c):
    e = Engine(p, c); e.sizes = SZ
    return e

def lazy(rep, p):
    """array and structure types: the layout follows the file, once"""
    from .. import terms
    terms.EXACTDIV = True
    try: return sum(lazy1(rep, p, k, T) for k in ('Array', 'Struct') for T in SZ)
    finally: terms.EXACTDIV = False

def lazy1(rep, p, k, T):
    n = 0; cl = tname(k, T); eng = Engine(p, Client()); rule = 'C22.array' if k == 'Array' else 'C22.struct'
    checks_ = [f for f in p.funcs.values() if f.get('clsfull') == cl and f['sn'] == 'check' and f.get('blocks')]
    size = [f for f in p.funcs.values() if f.get('clsfull') == cl and f['sn'] == 'size' and f.get('blocks')]
    rep.ob('C22.select', 'the containers know %s' % cl, bool(checks_ and size), 'no container uses it')
    if not checks_ or not size: return 1
    fn, size = checks_[0], size[0]
    def ob(rule, what, ok, msg, s): rep.ob(rule, '%s: %s' % (cl[7:], what), ok, msg, fn, None, s.trace())
    for r in range(1, SZ[T] if k == 'Array' else 1):
        vs = add(mul(S('number of elements'), C(SZ[T])), C(r)); c = SizeClient(p, vs); e = sized_engine(p, c)
        for s, v in e.run(fn):
            n += 1; ob(rule, 'a size that is no multiple of the element is rejected', v == C(p.const('INVALID_VAR_SIZE')), 'returns %s' % show(v), s)
        rep.engine(p, e)
    # a size that is a multiple (arrays), any size (structures)
    q = S('number of elements'); vs = mul(q, C(SZ[T])) if k == 'Array' else S('variable size')
    c = SizeClient(p, vs); e = sized_engine(p, c); res = e.run(fn); rep.engine(p, e)
    if not res: raise AnalysisBroken('no path through the check of ' + cl)
    for s, v in res:
        n += 1; ev = c.evs(s); err = eng.decide(s, truth(v)); mpi = [x for x in ev if x[0] == 'MPI']
        def equal(a, b): 
            if a is None or b is None: return False
            if a == b or eng.decide(s, cmp('==', a, b)) is True: return True
            f = Facts(s.conds); return f.prove(sub(a, b)) and f.prove(sub(b, a))
        after = sized_engine(p, Client()).run(size, st=s.copy())
        same = bool(after) and all(equal(r, vs) for _, r in after)
        msg = 'size %s, variable size %s' % ([show(r) for _, r in after], show(vs))
        if err is False: ob(rule, 'after a successful check an element has the size of the variable', same, msg, s)
        elif err is True and not [x for x in mpi if not x[3]]:
            ob(rule, 'another size than before is rejected as wrong size', v == C(p.const('WRONG_SIZE')), 'returns %s' % show(v), s)
            ob(rule, 'the same size as before is not rejected', not same, 'a file with the same size is rejected', s)
        elif err is None: ob(rule, 'the result of the check is known', False, 'returns %s' % show(v), s)
        for x in mpi:
            a = x[2]
            if x[1] == 'MPI_Type_contiguous':
                ob(rule, 'the MPI type has as many elements as the array', k == 'Array' and equal(a[0], q), 'count %s of size %s' % (show(a[0]), show(vs)), s)
                ob(rule, 'the elements of the MPI type are of type %s' % T, mpiname(a[1]) in MPIT[T], 'element type %s' % (mpiname(a[1]) or (show(a[1]) if a[1] else '?')), s)
            elif x[1] == 'MPI_Type_create_struct':
                rs = [y for y in mpi if y[1] == 'MPI_Type_create_resized']
                ob(rule, 'the MPI structure is resized to the size of the variable', not x[3] or any(equal(y[2][1], ZERO) and equal(y[2][2], vs) and y[2][0] == ('op', 'mpitype', C(x[1]), C(0)) for y in rs), 'the extent of the MPI type is not the size of the variable', s)
            elif x[1] in ('MPI_Type_commit', 'MPI_Type_free', 'MPI_Type_create_resized'): pass
            else: ob(rule, 'only known operations on MPI types', False, x[1], s)
        if err is False and 'ASAGI_NOMPI' not in p.defs and [x for x in mpi]:
            want = {'Array': 'MPI_Type_contiguous', 'Struct': 'MPI_Type_create_resized'}[k]
            l = used(p, fn)
            got = [s.store.get(x) for x in l]
            ob(rule, 'transfers use the type that was built', bool(got) and all(g is not None and g[0] == 'op' and g[1] == 'mpitype' and g[2] == C(want) for g in got), 'the MPI type used is %s' % [show(g) if g else g for g in got], s)
    return n

class ConvClient(Client):
    def __init__(self): self.casts = []; self.reads = []; self.writes = []
    def read(self, eng, st, fr, node, loc):
        loc = eng.canon(st, loc)
        if loc[0] == 'd': self.reads.append((loc, ty(fr.fn, node)))
    def write(self, eng, st, fr, node, loc, val):
        loc = eng.canon(st, loc)
        if loc[0] == 'd': st.ts = (st.ts or ()) + (('w', loc, val, ty(fr.fn, node)),)
    def call(self, eng, st, fr, node, name, obj, args):
        if name.split('::')[-1] in ('memcpy', 'memmove'):
            a = tuple(eng.load(st, x, fr, node) for x in args)
            st.ts = (st.ts or ()) + (('memcpy',) + a,)
            return [(st, a[0])]
        return None
    def ts_syms(self, ts): return set()
    def keep_sym(self, s): return True

def ty(fn, node):
    t = node.get('t') if isinstance(node, dict) else None
    t = fn['T'][t] if isinstance(t, int) else t
    return t.replace('const ', '').replace(' &', '').strip() if isinstance(t, str) else None

def plain_(v): return v[2] if v[0] == 'op' and v[1] == 'f2i' else v
ARITH = ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean')
def conversion(rep, p):
    n = 0; w = witness(p.cfg, 'convert'); eng = Engine(w, Client())
    for fn in [f for f in w.funcs.values() if f['n'] == 'witness::use']:
        X, B = fn['targs']
        k = next((k for k in KINDS if X.startswith('types::%sType<' % k)), None); T = X[X.index('<') + 1:-1]
        c = ConvClient(); e = Engine(w, c); data, buf = S('data'), S('buffer')
        tl = ('p', 'element type')
        res = e.run(fn, args=[('L', tl), data, buf]); rep.engine(w, e)
        size = next((f for f in w.funcs.values() if f.get('clsfull') == X and f['sn'] == 'size' and f.get('blocks')), None)
        if size is None: raise AnalysisBroken('no size of ' + X)
        for s, v in res:
            n += 1; ev = s.ts or ()
            at_ = next((w.funcs[x] for x in e.fn_seen if x != fn['id'] and 'witness' not in w.funcs[x]['file']), fn)
            def ob(what, ok, msg): rep.ob('C22.convert', what, ok, msg, at_, None, s.trace())
            if B == 'void':
                sz = [r for _, r in Engine(w, Client()).run(size, this=('&', tl))]
                ok = len(ev) == 1 and ev[0][0] == 'memcpy' and ev[0][1] == buf and ev[0][2] == data and len(sz) == 1 and norm_size(ev[0][3]) == norm_size(sz[0])
                ob('%s: the whole element is copied for an untyped query' % X[7:], ok, 'does %s' % [tuple(show(y) if isinstance(y, tuple) and y and y[0] != 'd' else str(y) for y in x[1:]) for x in ev][:3])
                continue
            if len(ev) == 1 and ev[0][0] == 'memcpy' and B == T:
                ob('%s as %s: one element is copied' % (X[7:], B), ev[0][1:3] == (buf, data) and norm_size(ev[0][3]) == sizev(T), 'copies %s bytes' % show(ev[0][3])); continue
            rd = [t for l, t in c.reads if l == ('d', data)]
            ob('%s as %s: the stored value is read as %s' % (X[7:], B, T), bool(rd) and all(t == T for t in rd), ('read as %s' % rd) if rd else 'the stored value is not read as one value (%s)' % (ev[0][0] if ev else 'nothing happens'))
            ob('%s as %s: the first element, and nothing else, is stored in the result' % (X[7:], B), len(ev) == 1 and ev[0][0] == 'w' and ev[0][1] == ('d', buf) and plain_(ev[0][2]) == ('i', ('d', data)) and ev[0][3] == B,
               'stores %s' % [(showloc(x[1]), show(x[2]), x[3]) if x[0] == 'w' else x[0] for x in ev][:3])
            for fid in e.fn_seen:
                g = w.funcs[fid]
                for nd in walk_nodes(g):
                    if nd['k'] == 'cast' and nd.get('ck') in ARITH:
                        to = ty(g, nd)
                        ob('%s as %s: converted from %s to %s directly' % (X[7:], B, T, B), to == B or to in HOLDS[T], 'converted to %s in between' % to)
    return n

def basics(rep, p):
    n = 0
    for k in KINDS:
        for T in SZ:
            cl = tname(k, T)
            if cl not in p.classes: rep.ob('C22.size', '%s exists' % cl, False, 'no such class'); continue
            def m(name):
                l = [f for f in p.method_of(cl, name) if f.get('blocks')]
                rep.ob('C22.select', 'the containers know %s' % cl, bool(l), '%s is not used' % name)
                return l
            if k == 'Basic':
                for f in m('size'):
                    e = Engine(p, Client())
                    for s, v in e.run(f): n += 1; rep.ob('C22.size', '%s has the size of %s' % (cl[7:], T), norm_size(v) == sizev(T), 'size %s' % show(v), f)
                    rep.engine(p, e)
                if 'ASAGI_NOMPI' not in p.defs:
                    for f in m('getMPIType'):
                        e = Engine(p, Client())
                        for s, v in e.run(f): n += 1; rep.ob('C22.mpi', 'values of %s are transferred as %s' % (T, T), mpiname(v) in MPIT[T], 'MPI type %s' % (mpiname(v) or show(v)), f)
                        rep.engine(p, e)
            for f in m('load'):
                calls_ = []
                class LC(Client):
                    def call(self, eng, st, fr, node, name, obj, args):
                        if name.startswith('io::NetCdfReader::'):
                            calls_.append((name, p.funcs.get(node['fn'], {}).get('targs'), tuple(eng.load(st, a, fr, node) for a in args))); return [(st, ZERO)]
                e = Engine(p, LC())
                for s, v in e.run(f):
                    n += 1; want = T if k == 'Basic' else 'void'
                    names = [x['n'] for x in f['params']]
                    ob = lambda what, ok, msg: rep.ob('C22.read', '%s: %s' % (cl[7:], what), ok, msg, f)
                    ob('one block is read as %s' % want, len(calls_) == 1 and calls_[0][1] == [want], 'reads %s' % [(x[0], x[1]) for x in calls_])
                    if len(calls_) == 1:
                        bufs = [x for x in f['params'] if f['T'][x['t']] in ('void *',)]
                        ptrs = [x for x in f['params'] if 'long' in f['T'][x['t']]]
                        if len(bufs) == 1 and len(ptrs) == 2:
                            ok = calls_[0][2] == tuple(S(x['n']) for x in bufs + ptrs)
                            ob('into the buffer, at the offset and with the size given', ok, 'arguments %s' % [show(x) for x in calls_[0][2]])
                    calls_.clear()
                rep.engine(p, e)
    return n

def reads(rep, p):
    """block read instantiated for T ends in the netCDF call that returns values of type T"""
    n = 0
    gets = [f for f in p.fns('io::NetCdfReader::getBlock') if f.get('blocks')]
    have = {f['targs'][0] for f in gets}
    for T in list(SZ) + ['void']: rep.ob('C22.read', 'blocks can be read as %s' % T, T in have, 'no such instantiation')
    for fn in gets:
        T = fn['targs'][0]
        if T not in NC: continue
        seen, st, nc = set(), [fn], []
        while st:
            f = st.pop()
            if f['id'] in seen: continue
            seen.add(f['id'])
            for c in calls(f):
                q = (c.get('n') or '').split('::')[-1]
                if q.startswith('nc_get_var') and '_var1' not in q: nc.append((q, f, c.get('l')))
                g = p.funcs.get(c.get('fn'))
                if g is not None and g.get('blocks') and g.get('cls') == 'io::NetCdfReader': st.append(g)
        n += 1
        rep.ob('C22.read', 'a block of %s is read with a netCDF call' % T, bool(nc), 'no netCDF read', fn)
        for q, f, l in nc:
            kind = q.split('_')[3] if len(q.split('_')) > 3 else ''
            rep.ob('C22.read', 'a block of %s is read as %s' % (T, T), kind in NC[T], 'read with %s' % q, f, l)
    # the size of a value in the file
    fn = p.fn('io::NetCdfReader::open')
    from .c16 import NcClient
    c = NcClient(p); e = Engine(p, c, 200000); res = e.run(fn); rep.engine(p, e)
    szf = [f for f in p.fns('io::NetCdfReader::getVarSize') if f.get('blocks')]
    for s, v in res:
        if Engine(p, Client()).decide(s, truth(v)) is not False: continue
        n += 1; ev = c.evs(s)
        tq = [x for x in ev if x[0] in ('nc_inq_vartype', 'nc_inq_var')]; sq = [x for x in ev if x[0] == 'nc_inq_type']
        rep.ob('C22.varsize', 'the type of the variable is asked for', bool(tq), 'no nc_inq_vartype', fn, None, s.trace())
        for f in szf:
            for s2, r in Engine(p, Client()).run(f, st=s.copy()):
                rep.ob('C22.varsize', 'the size of the value is the size of the type of the variable', sizeof_type(r, tq, sq), 'the size is %s' % show(r), f, None, s.trace())
    return n

def sizeof_type(r, tq, sq):
    """r is the size nc_inq_type reported for the type reported for the variable"""
    isop = lambda v, names: isinstance(v, tuple) and len(v) > 2 and v[0] == 'op' and v[1] in names
    return isop(r, ('inq_type',)) and len(sq) == 1 and len(tq) == 1 and isop(sq[0][2], ('inq_vartype', 'inq_var')) \
        and isop(tq[0][2], ('inq_varid',)) and sq[0][1] == tq[0][1]

def selection(rep, p):
    """every implementation is known to the container selection, as itself"""
    n = 0
    sel = [f for f in p.funcs.values() if f['sn'] == 'createContainer' and f.get('blocks')]
    ids = {f['id'] for f in sel}
    entry = {c.get('fn') for f in p.funcs.values() if f['id'] not in ids for c in calls(f)} & ids
    entry |= {nd.get('fnid') or nd.get('d') for f in p.funcs.values() if f['id'] not in ids and f.get('cls') == 'grid::Grid' for nd in walk_nodes(f) if nd['k'] == 'ref' and nd.get('vk') == 'func'} & ids
    if not entry: raise AnalysisBroken('nobody creates containers')
    class SC(Client):
        def __init__(self): self.ctor = []
        def call(self, eng, st, fr, node, name, obj, args):
            if name == 'grid::Grid::param': return [(st, ('op', 'param', args[0] and eng.load(st, args[0], fr, node)))]
            if name.startswith(('utils::', 'logWarning', 'mpi::')): return [(st, ZERO)]
            if node['k'] == 'ctor' and name.startswith('grid::'):
                st.ts = (st.ts or ()) + ((name, tuple(args)),); return [(st, ZERO)]
            return None
        def inline(self, eng, fn, name): return name.startswith(('grid::Grid', 'types::'))
        def ts_syms(self, ts): return set()
        def keep_sym(self, s): return True
    for fid in sorted(entry):
        fn = p.funcs[fid]
        cls = fn['clsfull']
        for k in KINDS:
            for T in SZ:
                st = State(); obj = ('h', ('type',), 0, tname(k, T))
                g = ('p', 'grid'); st.store[('f', g, 'm_type')] = ('&', obj)
                c = SC(); e = Engine(p, c)
                res = e.run(fn, args=[('L', g)], st=st); rep.engine(p, e)
                for s, v in res:
                    n += 1; t = made(s, v)
                    want = tname(k, T)
                    ok = t is not None and t.endswith(', %s>' % want) and set(re.findall(r'types::\w+Type<[^<>]*>', t)) == {want}
                    rep.ob('C22.select', '%s: a grid of %s gets a container of %s' % (level(cls), want[7:], want[7:]), ok, 'creates %s' % (t and t[-80:]), fn, None, s.trace())
                    ct = [x for x in (s.ts or ())]
                    own = [a for x in ct for a in x[1] if a is not None and a[0] in ('L', 'obj', '&') and e.canon(s, a[1] if a[0] != '&' else a[1]) == obj]
                    rep.ob('C22.select', '%s: the container of %s works on the type of the grid' % (level(cls), want[7:]), bool(own), 'the type object is not passed on', fn, None, s.trace())
    return n

def level(cls):
    i = cls.find('grid::level::')
    return cls[i + 13:].split(',')[0].split('<')[0] if i >= 0 else cls[:60]

GET = {'getByte': 'unsigned char', 'getInt': 'int', 'getLong': 'long', 'getFloat': 'float', 'getDouble': 'double', 'getBuf': 'void'}
def getters(rep, p):
    """a typed query looks the value up as the type it returns"""
    n = 0
    for name, B in GET.items():
        impl = [f for f in p.funcs.values() if f['sn'] == name and f.get('blocks') and (f.get('cls') or '').startswith('grid::')]
        top = [f for f in impl if f['cls'] == 'grid::Grid']
        rep.ob('C22.query', '%s is implemented by the grid and the containers' % name, bool(top) and len(impl) > len(top), 'no implementation')
        for fn in impl:
            target = (lambda nm: nm.endswith('::' + name) and nm != fn['n']) if fn in top else (lambda nm: nm.endswith('::getAt'))
            class QC(Client):
                def call(self, eng, st, fr, node, nm, obj, args):
                    if target(nm):
                        g = p.funcs.get(node.get('fn'), {}); a = tuple(eng.load(st, x, fr, node) for x in args)
                        out = [x for x in node_types(fr.fn, node)]
                        buf = a[0] if len(a) == 3 else None
                        if buf is not None: eng.write(st, Engine.deref(buf), S('value'))
                        st.ts = (st.ts or ()) + ((tuple(g.get('targs') or ()), buf, a[-2:], out[0] if out else ''),)
                        return [(st, S('value') if buf is None else ZERO)]
                    if fn in top and 'domainId' in nm: return [(st, S('domain'))]
                def inline(self, eng, g, nm): return not nm.startswith('grid::level')
                def ts_syms(self, ts): return set()
                def keep_sym(self, s): return True
            e = Engine(p, QC()); res = e.run(fn); rep.engine(p, e)
            ps = fn['params']; outp = ps[0] if len(ps) == 3 else None
            ot = fn['T'][outp['t']] if outp else (fn['T'][fn['ret']] if isinstance(fn.get('ret'), int) else '') + ' *'
            for s, v in res:
                n += 1; c = s.ts or ()
                def ob(what, ok, msg): rep.ob('C22.query', '%s of %s: %s' % (name, fn['cls'], what), ok, msg, fn, None, s.trace())
                ob('one look-up', len(c) == 1, '%d look-ups' % len(c))
                ob('the result has type %s' % B, ot in (B + ' *', B + '*'), 'the result is a %s' % ot)
                if len(c) != 1: continue
                if fn not in top:
                    t = (c[0][0] or (c[0][3].rstrip(' *'),))[-1]
                    ob('the value is looked up as %s' % B, t == B, 'looked up as %s' % t)
                ob('the position and the level are passed on', list(c[0][2]) == [S(x['n']) for x in ps[-2:]], 'passes %s' % [show(x) for x in c[0][2] if x is not None])
                if outp is None: ob('the value found is returned', v == S('value'), 'returns %s' % (show(v) if v else v))
                else:
                    l = Engine.deref(S(outp['n']))
                    ob('the value is stored in the caller\'s buffer', c[0][1] == S(outp['n']) or s.store.get(l) == S('value'), 'stored elsewhere')
    return n

def node_types(fn, node):
    for a in node.get('args', []):
        t = a.get('t') if isinstance(a, dict) else None
        yield fn['T'][t] if isinstance(t, int) else ''

def run(rep):
    rep.rule('C22.create', 'every type code creates the implementation of its C type, alone, in arrays and as the first member of a structure')
    rep.rule('C22.select', 'for each of the 15 implementations, every container selection creates a container and level of exactly that type')
    rep.rule('C22.size', 'a basic element has the size of its C type')
    rep.rule('C22.mpi', 'the MPI datatype of a basic element is the one of its C type')
    rep.rule('C22.read', 'blocks are read with the netCDF call of the C type; arrays and structures untyped')
    rep.rule('C22.convert', 'a query reads one value of the stored type and converts it once to the query type; untyped queries copy the whole element')
    rep.rule('C22.array', 'arrays: length and MPI type from the size of the variable; other sizes are rejected')
    rep.rule('C22.struct', 'structures: members exactly as given, resized to the size of the variable; other sizes are rejected')
    rep.rule('C22.varsize', 'the size of an element is taken from the type of the variable')
    rep.rule('C22.query', 'typed queries look the value up as the type they return')
    t = {}
    for cfg in (['default', 'nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        for k, v in (('type codes', creation(rep, p)), ('array and structure set-up paths', lazy(rep, p)), ('conversions', conversion(rep, p)), ('basic types', basics(rep, p)),
                     ('block reads', reads(rep, p)), ('container selections', selection(rep, p)), ('typed queries', getters(rep, p))): t[k] = t.get(k, 0) + v
    for k, m in (('type codes', 20), ('array and structure set-up paths', 20), ('conversions', 90), ('basic types', 20), ('block reads', 6), ('container selections', 15), ('typed queries', 6)): rep.floor(k, t[k], m)
