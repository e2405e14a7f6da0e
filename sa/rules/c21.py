"""C21: counter events of every query path; the named combinations; aggregation."""
import re
from ..query import *
from ..xfer import LockClient

FORM = {'accesses': {'A': 1}, 'numa_transfers': {'N': 1}, 'mpi_transfers': {'M': 1}, 'file_loads': {'F': 1},
        'local_hits': {'A': 1, 'N': -1, 'M': -1, 'F': -1}, 'node_hits': {'A': 1, 'M': -1, 'F': -1}, 'local_misses': {'N': 1, 'M': 1, 'F': 1}}

def counters(p):
    """enumerator name -> value of perf::Counter::CounterType"""
    for e in p.enums.values():
        if e['n'] == 'perf::Counter::CounterType': return {k: C(v) for k, v in e['c']}
    raise AnalysisBroken('counter enumeration not found')

def query_rules(rep, p, kinds, cls, full, fn, res):
    w = short(full); n = 0
    names = {v: k for k, v in kinds.items()}
    for ev, s in res:
        n += 1; tr = s.trace()
        inc = [names.get(e[1], show(e[1])) for e in ev if e[0] == 'inc']
        want = {'ACCESS': 1, 'NUMA': sum(1 for e in ev if e[0] == 'numa' and e[2]), 'FILE': sum(1 for e in ev if e[0] == 'load'),
                'MPI': sum(1 for e in ev if e[0] == 'mpi' and e[2]) + sum(1 for e in ev if e[0] == 'mpifull')}
        what = {'ACCESS': 'one access is counted', 'NUMA': 'NUMA fetches are counted', 'MPI': 'MPI fetches are counted', 'FILE': 'file loads are counted'}
        for k in want:
            rep.ob('C21.query', '%s: %s' % (w, what[k]), inc.count(k) == want[k], 'counted %d, happened %d' % (inc.count(k), want[k]), fn, trace=tr)
        other = [x for x in inc if x not in want]
        rep.ob('C21.query', '%s: only native counters are counted' % w, not other, 'counts %s' % other, fn, trace=tr)
        rep.ob('C21.query', '%s: a query fetches at most one block' % w, want['NUMA'] + want['MPI'] + want['FILE'] <= 1, 'fetches %s' % want, fn, trace=tr)
    return n

def native(rep, p, kinds):
    """inc(k) adds one to exactly the counter that get(k) returns; derived kinds"""
    cell = {}
    fi = p.fn('perf::Counter::inc'); fg = p.fn('perf::Counter::get')
    out = {}
    for k, v in kinds.items():
        res, e = summary(p, fg, args=[v], rep=rep, client=LockClient(p))
        vals = set(e.load(s, r) for s, r in res)
        if len(vals) != 1: raise AnalysisBroken('perf::Counter::get is not deterministic for ' + k)
        out[k] = vals.pop()
    base = {}
    for k in ('ACCESS', 'NUMA', 'MPI', 'FILE'):
        res, e = summary(p, fi, args=[kinds[k]], rep=rep, client=LockClient(p))
        for s, r in res:
            wr = {l: x for l, x in s.store.items() if under(l, THISLOC) and l[0] in ('e', 'f') and not l[2] == '#lock'}
            ok = len(wr) == 1 and list(wr.values())[0] == add(('i', list(wr)[0]), ONE)
            rep.ob('C21.native', 'counting %s adds one to one counter' % k, ok, 'changes %s' % ['%s := %s' % (showloc(l), show(x)) for l, x in wr.items()], fi, trace=s.trace())
            if ok: base[k] = ('i', list(wr)[0])
    rep.ob('C21.native', 'the four native counters are separate', len(set(base.values())) == 4, 'share storage', fi)
    return out, base

def run(rep):
    rep.rule('C21.query', 'on every path of every value query: exactly one access; exactly one fetch under the source that supplied the block, none otherwise')
    rep.rule('C21.native', 'incrementing and reading address the same counter; derived counters are the documented combinations')
    rep.rule('C21.names', 'documented names select the counter they describe; unknown names yield 0')
    rep.rule('C21.sum', 'the grid sums the requested counter of the requested level over all domains')
    nq = nn = 0
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt', 'nonuma_nompi']).items():
        kinds = counters(p)
        for cls, full, fn, res in queries(p, rep, all_types=TIER != 'quick'):
            nq += query_rules(rep, p, kinds, cls, full, fn, res)
        get, base = native(rep, p, kinds)
        # names: run the name table's constructor and the look-up
        table = {}
        f2 = p.fn('perf::Counter::name2type')
        base_store = {}
        for g in p.globals.values():
            ini = g.get('init') or {}
            c = p.funcs.get(ini.get('fn')) if ini.get('k') == 'ctor' else None
            if not c or not c.get('blocks') or not c['n'].startswith('perf::Counter::'): continue
            e = Engine(p, Client())
            loc = ('g', g['n'])
            st = State(); st.store[('hv', ('f', loc, '#in'))] = ZERO
            rs = e.run(c, this=('&', loc), st=st)
            if len(rs) != 1: raise AnalysisBroken('construction of %s is not deterministic' % g['n'])
            base_store.update({k: v for k, v in rs[0][0].store.items() if under(k[1] if k[0] == 'hv' else k, loc)})
        A = dict(A=base.get('ACCESS'), N=base.get('NUMA'), M=base.get('MPI'), F=base.get('FILE'))
        if None in A.values(): continue
        for name, form in list(FORM.items()) + [('no such counter', {}), ('', {})]:
            st = dict(base_store)
            res, e = summary(p, f2, args=[C(name)], rep=rep, store=st)
            vals = set(e.load(s, v) for s, v in res)
            t = None
            if len(vals) == 1 and is_c(list(vals)[0]):
                k = [x for x, y in kinds.items() if y == list(vals)[0]]
                t = get.get(k[0]) if k else None
            want = ZERO
            for x, c in form.items(): want = add(want, mul(C(c), A[x]))
            nn += 1
            rep.ob('C21.names', 'counter "%s"' % name, t == want, 'selects %s = %s, documented is %s' % ([show(v) for v in vals], show(t) if t else t, show(want)), f2)
        aggregate(rep, p)
    doc = open(os.path.join(REPO, 'documentation/user/02_usage.h')).read()
    sec = doc[doc.find('accesscounter Access counters'):]
    names = re.findall(r'<td>(\w+)</td>', sec[:sec.find('</table>')])
    rep.ob('C21.names', 'documented counter names', sorted(names) == sorted(FORM), 'documentation lists %s' % names, dict(file='documentation/user/02_usage.h', line=278, n='documentation'))
    rep.floor('query paths', nq, 20); rep.floor('counter names', nn, 9)

def aggregate(rep, p):
    fn = p.fn('grid::Grid::getCounter')
    class A(Summ):
        def call(self, eng, st, fr, node, name, obj, args):
            if name.endswith('Container::getCounter') and name.startswith('grid::'):
                a = tuple(eng.load(st, x) for x in args)
                st.ts = (st.ts or ()) + (('cnt', obj) + a,)
                if len(st.ts) > 8: raise Budget('events')
                return [(st, ('op', 'count', eng.addr(obj)) + a)]
            if name == 'perf::Counter::name2type': return [(st, ('op', 'type', eng.load(st, args[0])))]
            return None
    # three domains
    NC = 3
    st = {}
    f = [x for c in p.classes.values() if c['n'] == 'grid::Grid' for x in c['fields']]
    vec = [x['n'] for x in f if 'Container' in str(x.get('t'))] if f and isinstance(f[0].get('t'), str) else None
    name = 'm_containers'
    st[('f', F(name), '#size')] = C(NC)
    for i in range(NC): st[('e', F(name), C(i))] = S('container%d' % i)
    res, e = summary(p, fn, store=st, rep=rep, client=A())
    for s, v in res:
        v = e.load(s, v)
        want = ZERO
        for i in range(NC): want = add(want, ('op', 'count', S('container%d' % i), ('op', 'type', P(fn, 0)), P(fn, 1)))
        rep.ob('C21.sum', 'sum over all domains of the named counter of the given level', v == want, 'returns %s' % show(v), fn, trace=s.trace())
    # container -> level -> counter
    for fn in [x for x in p.funcs.values() if x['n'] == 'grid::SimpleContainer::getCounter' and x.get('blocks')][:None if TIER != 'quick' else 3]:
        class B(Summ):
            def call(self, eng, st, fr, node, name, obj, args):
                if name == 'perf::Counter::get': return [(st, ('op', 'get', eng.addr(obj), eng.load(st, args[0])))]
                return None
        res, e = summary(p, fn, rep=rep, client=B())
        for s, v in res:
            v = e.load(s, v)
            ok = v[:2] == ('op', 'get') and v[3] == P(fn, 0)
            l = v[2] if ok else None
            ok = ok and l[0] == '&' and (element(l[1]) or [None])[0] == P(fn, 1)
            rep.ob('C21.sum', 'a container reads the counter of the given level', ok, 'reads %s' % show(v), fn, trace=s.trace())

def chain(l):
    while True:
        yield l
        if l[0] in ('f', 'e'): l = l[1]
        else: return

def P(fn, i): return ('i', ('p', fn['params'][i]['n'] or 'arg%d' % i))
