"""C33: node-local ranks: the groups of MPI_Comm_split and the count of equal host names."""
from .base import *
from ..engine import *
from ..engine import walk_nodes, calls
import re

PN = 'ompi_mpi_'
class NodeClient(Client):
    """events: ('MPI', name, args); the host name is unknown, its length and the rank on the node are given or unknown"""
    def __init__(self, p, length=None, rank=None):
        self.p = p; self.length = length; self.rank = rank; self.problems = []; self.written = {}
    def inline(self, eng, fn, name): return not fn['file'].startswith('/')
    def write(self, eng, st, fr, node, loc, val):
        if loc[0] == 'v': self.written.setdefault(loc, []).append(val)
    def ev(self, st, *e): st.ts = (st.ts or ()) + (e,)
    def widen_ts(self, old, new): return new
    def ts_syms(self, ts): return set()
    def call(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name == 'MPI_Get_processor_name':
            buf, out = Engine.deref(ld(args[0])), eng.canon(st, Engine.deref(ld(args[1])))
            eng.write(st, out, self.length if self.length is not None else S('length'))
            eng.assume(st, cmp('>=', eng.read(st, out), ZERO), True)
            self.ev(st, 'MPI', name, (eng.canon(st, buf),)); return [(st, ZERO)]
        if name in ('MPI_Comm_rank', 'MPI_Comm_size'):
            comm = ld(args[0]); node_ = comm[:2] == ('op', 'node communicator')
            v = (self.rank if self.rank is not None else S('node rank')) if name.endswith('rank') and node_ else S('%s of %s' % (name[9:], 'node' if node_ else show(comm)))
            eng.write(st, eng.canon(st, Engine.deref(ld(args[1]))), v); self.ev(st, 'MPI', name, (comm, v)); return [(st, ZERO)]
        if name == 'MPI_Comm_split':
            l = eng.canon(st, Engine.deref(ld(args[3]))); eng.write(st, l, ('op', 'node communicator', ld(args[0])))
            self.ev(st, 'MPI', name, tuple(ld(a) for a in args[:3])); return [(st, ZERO)]
        if name.startswith('MPI_'):
            a = tuple(ld(x) for x in args); t = ()
            if name == 'MPI_Allgather' and self.length is not None and a[0][0] == '&':
                b = a[0][1]; b = b[1] if b[0] == 'e' else b
                t = (eng.read(st, ('e', b, self.length)) == ZERO,)
            self.ev(st, 'MPI', name, a, *t); return [(st, ZERO)]
        if name.split('::')[-1] in ('strcmp', 'strncmp', 'memcmp'):
            a = tuple(ld(x) for x in args)
            return [(st, ('op', 'compare', C(name)) + a)]
        return None
    def alloc(self, eng, st, fr, node, loc, n): self.ev(st, 'new', loc, n)

TOP = (float('-inf'), float('inf'))
WIDTH = {'unsigned char': (0, 255), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned short': (0, 65535), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1)}
def ranges(t, leaf):
    """an interval that contains every value of an integer term"""
    if is_num(t): return (t[1], t[1])
    if t[0] == 'poly':
        lo = hi = t[1]
        for m, k in t[2]:
            a, b = (1, 1)
            for x in m:
                c, d = ranges(x, leaf); v = [p_ * q for p_ in (a, b) for q in (c, d) if not (p_ == 0 and abs(q) == float('inf') or q == 0 and abs(p_) == float('inf'))] or [0]
                if 0 in (a, b, c, d): v.append(0)
                a, b = min(v), max(v)
            v = (a * k, b * k); lo += min(v); hi += max(v)
        return lo, hi
    if t[0] == 'op' and len(t) > 2 and t[1] in ('%', '/', '<<', '>>', '&', '|', '^', '==', '<', '>=', '!=', '!', 'and', 'or'):
        o = t[1]; r = [ranges(x, leaf) for x in t[2:]]
        if o == '%' and r[1][0] > 0:
            m = r[1][1] - 1
            return (0, min(m, r[0][1])) if r[0][0] >= 0 else (-m, m)
        if o == '/' and r[1][0] > 0 and r[0][0] >= 0: return (r[0][0] // r[1][1] if r[1][1] != float('inf') else 0, r[0][1] // r[1][0] if r[0][1] != float('inf') else float('inf'))
        if o == '<<' and r[0][0] >= 0 and r[1][0] >= 0 and r[1][1] < 64 and r[0][1] < float('inf'): return (r[0][0] << int(r[1][0]), int(r[0][1]) << int(r[1][1]))
        if o == '>>' and r[0][0] >= 0 and r[1][0] >= 0 and r[0][1] < float('inf'): return (0, int(r[0][1]) >> int(r[1][0]))
        if o == '&' and (r[0][0] >= 0 or r[1][0] >= 0): return (0, min(x[1] for x in r if x[0] >= 0))
        if o in ('|', '^') and min(r[0][0], r[1][0]) >= 0 and max(r[0][1], r[1][1]) < float('inf'):
            return ((max(r[0][0], r[1][0]) if o == '|' else 0), (1 << max(int(r[0][1]).bit_length(), int(r[1][1]).bit_length())) - 1)
        if o in ('==', '<', '>=', '!=', '!', 'and', 'or'): return (0, 1)
    return leaf(t)

def leaves(t):
    """the values a term is computed from"""
    if t[0] == 'op' and t[1] in ('out', 'part'): return {t}
    if t[0] == 'op': return set().union(*[leaves(x) for x in t[2:] if isinstance(x, tuple)]) if len(t) > 2 else {t}
    if t[0] == 'poly': return set().union(set(), *[leaves(x) for m, _ in t[2] for x in m])
    return set() if is_c(t) else {t}

def through(l):
    while l[0] == 'e' : l = l[1]
    return l

def at(rcv, i):
    """pointer to the i-th name (as an array, or its first character)"""
    b = rcv[1]; h = b[1] if b[0] == 'e' else b
    el = re.search(r'\[(\d+)\]', h[3]) if h[0] == 'h' and len(h) > 3 else None
    if el: return [('&', ('e', ('e', h, C(i)), ZERO)), ('&', ('e', h, C(i)))]
    return [('&', ('e', h, C(257 * i)))]

def run(rep):
    rep.rule('C33.group', 'the processes are grouped by a valid color that depends on the host name only, ordered by their rank')
    rep.rule('C33.gather', 'the complete, terminated host names of the group are collected')
    rep.rule('C33.count', 'the result is the number of lower ranks of the group with the same host name')
    n = 0
    for cfg in (['default', 'nompi3'] if TIER == 'quick' else [c for c in ALL if 'nompi' not in c or c == 'nompi3']):
        p = programs([cfg])[cfg]
        fns = p.fns('asagi::Grid::nodeLocalRank', False)
        if not fns: raise AnalysisBroken('no nodeLocalRank')
        fn = fns[0]; comm = S('comm')
        types = {}
        for f in [fn] + [p.funcs[x['fn']] for x in calls(fn) if x.get('fn') in p.funcs]:
            for nd in walk_nodes(f):
                if nd.get('k') == 'decl':
                    for d in nd['v']: types[d['d']] = f['T'][d['t']]
            for q in f['params']: types[q['d']] = q['t'] if isinstance(q['t'], str) else f['T'][q['t']]
        for length in [None] + [C(k) for k in range(0, 5)]:
            c = NodeClient(p, length); e = Engine(p, c, 60000); e.sizes = {'char[257]': 257}
            for s, v in e.run(fn, args=[comm]):
                n += 1; ev = {x[1]: x for x in s.ts if x[0] == 'MPI'}; name = ev.get('MPI_Get_processor_name', (0, 0, (None,)))[2][0]
                def ob(rule, what, ok, msg): rep.ob(rule, '%s, host name of %s characters' % (what, 'any number of' if length is None else length[1]), ok, msg, fn, trace=s.trace())
                sp = [x[2] for x in s.ts if x[0] == 'MPI' and x[1] == 'MPI_Comm_split']
                ob('C33.group', 'the communicator is split once into hosts', len(sp) == 1, '%d splits' % len(sp))
                for cm, color, key in sp:
                    def leaf(t, seen=()):
                        if t[0] == 'phi' or t[0] == 'i':
                            loc = t[3] if t[0] == 'phi' else t[1]; ty = types.get(loc[2]) if loc[0] == 'v' else None
                            w = WIDTH.get((ty or 'unsigned char' if loc[0] == 'e' else ty or '').replace('const ', ''), TOP)
                            if t[0] == 'phi' and t not in seen:
                                l = [ranges(x, lambda y: leaf(y, seen + (t,))) for x in c.written.get(loc, ())]
                                if l and min(x[0] for x in l) >= w[0] and max(x[1] for x in l) <= w[1]: return (min(x[0] for x in l), max(x[1] for x in l))
                            return w
                        if t[0] == 'o' or t[0] == 'op' and t[1] in ('out', 'part'): return (0, 255) if any('unsigned char' in x for x in types.values()) else (0, 2**32 - 1) if seen and 'unsigned' in types.get(seen[-1][3][2], '') else (-128, 255)
                        return TOP
                    r = ranges(color, leaf)
                    ob('C33.group', 'the color of MPI_Comm_split is not negative', 0 <= r[0] and r[1] <= 2**31 - 1, 'the color may be any value from %s to %s' % r)
                    ob('C33.group', 'the processes of the communicator are split', cm == comm, 'splits %s' % show(cm))
                    ob('C33.group', 'the processes of a host are ordered by their rank', key == S('rank of %s' % show(comm)), 'the key is %s' % show(key))
                    if length is not None:
                        bad = [x for x in leaves(color) if not (x[0] == 'i' and name is not None and through(x[1]) == through(name) )]
                        ob('C33.group', 'the color depends on the host name only', not bad, 'it depends on %s' % ', '.join(show(x) for x in bad))
                        used = {x[1] for x in leaves(color)}
                        out = [x for x in used if x[0] == 'e' and is_num(x[2]) and x[2][1] >= length[1]]
                        ob('C33.group', 'only the characters of the name are hashed', not out, 'it depends on %s' % ', '.join(showloc(x) for x in out))
                new = [x for x in s.ts if x[0] == 'new']; ga = [x for x in s.ts if x[0] == 'MPI' and x[1] == 'MPI_Allgather']
                ob('C33.gather', 'the host names of the group are gathered once', len(ga) == 1, '%d times' % len(ga))
                for x in ga:
                    snd, n1, t1, rcv, n2, t2, cm = x[2]
                    ob('C33.gather', 'the names come from the processes of the group', cm[:2] == ('op', 'node communicator'), 'gathers over %s' % show(cm))
                    ob('C33.gather', 'the own name is sent', name is not None and snd[0] == '&' and through(snd[1]) == through(name), 'sends %s' % show(snd))
                    ob('C33.gather', 'sent and received sizes agree', (n1, t1) == (n2, t2) and t1 in [('&', ('g', PN + q)) for q in ('char', 'byte', 'signed_char', 'unsigned_char')], 'sends %s, receives %s' % (show(n1), show(n2)))
                    h = rcv[1] if rcv[0] == '&' else None
                    h = h[1] if h and h[0] == 'e' else h
                    el = re.search(r'\[(\d+)\]', h[3]) if h and h[0] == 'h' and len(h) > 3 else None
                    ob('C33.gather', 'a complete name is exchanged', is_num(n1) and n1[1] >= 257 and (el is None or n2 == C(int(el.group(1)))), 'exchanges %s characters' % show(n1))
                    cnt = [y[2] for y in new if y[1] == h]
                    ob('C33.gather', 'there is room for every process of the group', len(cnt) == 1 and (cnt[0] == S('size of node') if el else cnt[0] == mul(n2, S('size of node'))), 'room for %s' % ', '.join(map(show, cnt)))
                    if length is not None: ob('C33.gather', 'the own name is terminated before it is sent', x[-1] is True, 'the character after the name is not set to 0')
            rep.engine(p, e); rep.analysed(p, fn)
        for k in range(0, 5):
            c = NodeClient(p, ONE, C(k)); e = Engine(p, c, 60000); e.sizes = {'char[257]': 257}; m = 0
            for s, v in e.run(fn, args=[comm]):
                m += 1; seen = {}; ev = {x[1]: x for x in s.ts if x[0] == 'MPI'}; name = ev['MPI_Get_processor_name'][2][0]; rcv = ev['MPI_Allgather'][2][3]
                for cnd, val in s.conds.items():
                    if cnd[0] == 'op' and cnd[1] in ('==', '!=') and any(x[0] == 'op' and x[1] == 'compare' for x in cnd[2:]) and ZERO in cnd[2:]:
                        seen[[x for x in cnd[2:] if x != ZERO][0]] = val == (cnd[1] == '==')
                pos = []
                for t in seen:
                    o = [a for a in t[3:5] if not (a[0] == '&' and through(a[1]) == through(name))]
                    j = None
                    if len(o) == 1 and t[2][1].split('::')[-1] == 'strcmp':
                        j = next((i for i in range(0, 8) if o[0] in at(rcv, i)), None)
                    pos.append(j)
                rep.ob('C33.count', 'rank %d of the group compares its host name with those of the lower ranks' % k, sorted(pos, key=str) == list(range(k)), 'compares with %s' % pos, fn, trace=s.trace())
                rep.ob('C33.count', 'rank %d of the group counts the lower ranks with the same name' % k, v == C(sum(1 for x in seen.values() if x)), 'returns %s for %d equal names' % (show(v) if v else v, sum(1 for x in seen.values() if x)), fn, trace=s.trace())
            rep.engine(p, e)
            rep.ob('C33.count', 'rank %d: every combination of equal names is possible' % k, m >= 2 ** k, '%d paths' % m, fn)
    rep.floor('paths', n, 2)
import os
DEBUG = os.environ.get('D33')
