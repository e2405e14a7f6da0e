"""C24: lock sets. Shared state is only touched under the lock that protects it."""
import re
from .c11 import *
from .c11 import Locks, Cl, thread_functions
import functools
from ..terms import sub as sub_
from .c09 import subterms as _subterms

subterms = functools.lru_cache(200000)(lambda t: frozenset(_subterms(t)))

READS = ('size', 'empty', 'find', 'end', 'cend', 'begin', 'cbegin', 'at', 'count', 'operator==', 'operator!=', 'c_str', 'front', 'back', 'load', 'operator->', 'operator*', 'data', 'max_size', 'capacity', 'operator bool')
# what the protection of a field is, where it is not a lock
EXEMPT = {
    'perf::Counter::m_counter': 'statistics; the documentation of THREADSAFE_COUNTER says that they are only exact if it is set',
}
FLAGS = {
    'numa::Numa::m_initialized': 'false until the last thread is registered; every thread has read false before that',
}
DOMID = ('m_numaDomainId', 'm_domainId')
DOM0 = 'the role of domain 0'       # one thread per grid, while the grid is opened
PUBLISH = ('threads::Once', 'threads::Sync')      # leaving them orders what was done inside before whatever follows

class Acc(Cl):
    """records every access to a field with the locks held there, and the calls with the locks held there"""
    def __init__(self, A, root):
        Cl.__init__(self, A, root); self.acc = {}; self.out = {}
    def locks(self, st):
        r = frozenset((self.names.get(l, lockname(l))) for l, h in self.held(st))
        return r | {DOM0} if any(v is True and master(a) for a, v in st.conds.items()) else r
    def access(self, st, fr, node, loc, kind):
        k = key(loc)
        if k is None: return
        base, cf, sub = k
        n = self.A.fname(cf, fr)
        if n is None or self.A.skip(n): return
        idx = [l[2] for l, h in self.held(st) if l[0] == 'e' and inside(l[1], base)] if kind == 'w' and sub is not None and cf.endswith('*') else ()
        flag = any(flagged(a, v) for a, v in st.conds.items())
        t = None; g = fr; c = cls_of(n)
        while g is not None and t is None:
            d = g.fn.get('clsfull')
            if d: t = next((x for x in [d] + list(self.A.p.all_bases(d)) if x.split('<')[0] == c), None)
            g = g.outer
        self.acc.setdefault((n, kind, self.locks(st), t, sub is not None and perthread(self.A, sub), flag, bool(idx), bool(idx) and not any(belongs(i, sub) for i in idx)), (fr.fn, node.get('l') if isinstance(node, dict) else None, sub, loc, st.trace()))
    def read(self, eng, st, fr, node, loc): self.access(st, fr, node, eng.canon(st, loc), 'r')
    def write(self, eng, st, fr, node, loc, val):
        if isinstance(node, dict) and node.get('k') == 'call':
            if node.get('fn') is None and not node.get('n') : return      # a pointer to member function: its targets are analysed themselves
            f = self.A.p.funcs.get(node.get('fn'))
            k = key(loc)
            if f is not None and 'blocks' in f and k and k[1].endswith('*') and k[2] is None and self.A.isclass(k[1].rstrip('*')): return     # the callee's accesses count
        self.access(st, fr, node, eng.canon(st, loc), 'w')
    def opaque(self, eng, st, fr, node, name, obj, args):
        pt = node.get('pt', [])
        for j, a in enumerate(args):
            t = fr.fn['T'][pt[j]] if j < len(pt) else ''
            if a is not None and a[0] == '&' and t.startswith('const ') and t.endswith('*'): self.access(st, fr, node, eng.canon(st, a[1]), 'r')
        return Cl.opaque(self, eng, st, fr, node, name, obj, args)
    def call(self, eng, st, fr, node, name, obj, args):
        name = name or ''
        if obj is not None and isinstance(obj, tuple) and name.startswith(('std::', '__gnu')) and not any(name.split('::')[1].startswith(g.split('::')[-1]) for g in GUARDS):
            m = name.split('::')[-1]; cls = name.rpartition('::')[0]
            if 'atomic' not in cls:
                rd = m in READS or m == 'operator[]' and 'map' not in cls.split('<')[0] or 'iterator' in cls.split('<')[0]
                self.access(st, fr, node, eng.canon(st, obj), 'r' if rd or node['k'] == 'ctor' else 'w')
        for c in (self.A.candidates(node) if node.get('fn') is not None else ['indirect*' if self.A.mp(fr.fn, node) else 'indirect'] if node['k'] == 'call' else []):
            for t in self.A.expand(c): self.edge(st, fr, node, t)
        if name.startswith('operator delete') and node.get('dtor'):
            for t in self.A.candidates(node['dtor']): self.edge(st, fr, node, t)
        return Cl.call(self, eng, st, fr, node, name, obj, args)
    def edge(self, st, fr, node, t): self.out.setdefault((t, self.locks(st)), (fr.fn, node.get('l')))
    def dtor(self, eng, st, fr, e, name, loc):
        if e.get('fn'): self.edge(st, fr, e, e['fn'])
        return Cl.dtor(self, eng, st, fr, e, name, loc)

@functools.lru_cache(200000)
def master(a):
    """the condition that holds for one NUMA domain only"""
    return a[0] == 'op' and a[1] == '==' and ZERO in a[2:] and any(x[0] == 'i' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] in DOMID or x[0] == 'phi' and isinstance(x[3], tuple) and x[3][0] == 'f' and x[3][2] in DOMID or x[0] == 'r' and (x[3].endswith('::domainId') or x[3] == 'pthread_getspecific') for x in subterms(a))

@functools.lru_cache(200000)
def flagged(a, v):
    """the flag is known to be set"""
    if a[0] == 'op' and a[1] in ('!=', '==') and ZERO in a[2:] and v != (a[1] == '!='): return False
    if a[0] != 'op' and not v: return False
    return any(x[0] == 'i' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] in {f.rpartition('::')[2] for f in FLAGS} for x in subterms(a))

def inside(x, base):
    while True:
        if x == base: return True
        if x[0] in ('f', 'e'): x = x[1]
        elif x[0] == 'd' and x[1][0] == 'i' and isinstance(x[1][1], tuple): x = x[1][1]
        else: return False

def belongs(i, sub):
    """does the subscript address the part of the array that belongs to element i?"""
    if i == sub: return True
    if i not in subterms(sub) or is_c(i): return False
    at0 = subst(sub, lambda x: ZERO if x == i else None); stride = sub_(subst(sub, lambda x: ONE if x == i else None), at0)
    own = {x for x in subterms(stride) if x[0] in ('i', 'r', 'op')}
    return not (own & subterms(at0))

def perthread(A, t):
    """the subscript depends on the number of the thread (and on nothing else that differs between threads)"""
    if is_c(t): return False
    s = show(t); r = s.replace(A.threadid, '<thread>')
    return '<thread>' in r and 'pthread_getspecific' not in r

def threadid(p):
    f = p.fn('numa::Numa::threadId')
    r, e = summary(p, f, client=Summ(inline=lambda fn, name: True))
    v = {show(x) for s, x in r}
    return v.pop() if len(v) == 1 else '<unknown>'

def key(loc):
    """(owner, field, subscript) of the field a location belongs to; None for locals"""
    r = locroot(loc)
    if r[0] in ('v', 't'): return None
    sub = None; x = loc; best = None
    while True:
        if x[0] == 'f':
            if not x[2].startswith('#') and best is None: best = x
            if x[2].startswith('#'): best = None
            x = x[1]
        elif x[0] == 'e':
            if sub is None: sub = x[2]
            x = x[1]
        elif x[0] == 'd':
            if best is None and x[1][0] == 'i' and x[1][1][0] == 'f': return (x[1][1][1], x[1][1][2] + '*', sub)
            return (best[1], best[2], sub) if best else None
        elif x[0] == 'g': return (best[1], best[2], sub) if best else (None, '::' + x[1], sub)
        else: return (best[1], best[2], sub) if best else None

class Shared(Locks):
    def __init__(self, p, rep):
        Locks.__init__(self, p, rep)
        self.byname = {}; self.classes = set(p.classes) | {c['n'] for c in p.classes.values()}
        for c in p.classes.values():
            for f in c.get('fields', []): self.byname.setdefault((c['n'], f['n']), c['T'][f['t']])
    def fname(self, f, fr):
        star = f.endswith('*'); f = f.rstrip('*')
        if f.startswith('::'): return f[2:] + ('*' if star else '')
        cs = self.fields.get(f, set()); n = None
        if len(cs) == 1: n = next(iter(cs))
        g = fr
        while n is None and g is not None:
            c = g.fn.get('cls')
            if c in cs: n = c
            elif c:
                b = [x.split('<')[0] for x in self.p.all_bases(g.fn.get('clsfull', c))]
                n = next((x for x in b if x in cs), None)
            g = g.outer
        return '%s::%s%s' % (n or '?', f, '*' if star else '')
    def isclass(self, f):
        ts = {t for (c, n), t in self.byname.items() if n == f}
        return bool(ts) and all(t.replace('const ', '').rstrip('*& ') in self.classes for t in ts)
    def skip(self, n):
        """constants of MPI, and objects that synchronise themselves"""
        if n.startswith('ompi_'): return True
        c, _, f = n.rpartition('::')
        if c in LOCK_CLS + NOOP_CLS: return True
        t = self.byname.get((c, f), '')
        return 'std::atomic' in t or t.startswith(('pthread_mutex', 'pthread_cond', 'pthread_spin'))

def roots(p, A):
    r = {'query': [], 'thread': sorted(A.threads), 'open': [], 'grid': [], 'service': []}
    for f in p.funcs.values():
        if 'blocks' not in f: continue
        s, c = f['sn'], f.get('cls')
        if c == 'grid::Grid' and s.startswith('get'):
            if not any(x in s for x in ('Byte', 'Int', 'Long', 'Double')): r['query'].append(f['id'])
        elif c == 'grid::Grid' and s in ('open',): r['open'].append(f['id'])
        elif s.startswith(('asagi_', 'f90asagi_')) or c == 'asagi::Grid' or f['n'].startswith('grid::Grid::'):
            k = s.replace('f90', '').replace('asagi_', '').replace('grid_', '').replace('_', '').lower()
            if 'commthread' in k: r['service'].append(f['id'])
            elif k.startswith(('create', 'close', 'set', 'nodelocal', '~grid', 'grid')) or k in ('c2f', 'f2c', 'open') or k.startswith(('get', 'min', 'max', 'delta', 'dim', 'varsize', 'c2f', 'f2c')): r['grid'].append(f['id'])
    return r

def together(a, b):
    """may two calls of these kinds run at the same time?"""
    if 'service' in (a, b): return a == b
    return not (a == b == 'thread')

class Contexts:
    def __init__(self, p, rep, A):
        self.p, self.rep, self.A = p, rep, A; self.done = {}; self.ctx = {}
    def visit(self, start):
        p, A = self.p, self.A; seen = {}
        work = [(i, frozenset(), k) for k, l in start.items() for i in l]
        while work:
            i, held, kind = work.pop()
            f = p.funcs.get(i)
            if f is None or 'blocks' not in f or A.is_impl(f): continue
            if (held, kind) in seen.setdefault(i, set()): continue
            seen[i].add((held, kind))
            if i not in self.done:
                c = Acc(A, f); e = Engine(p, c, 400000)
                e.run(f)
                self.done[i] = c; self.rep.engine(p, e)
            for (t, h), (fn, l) in self.done[i].out.items():
                if t in A.relevant and A.resid.get(t): continue     # analysed inside its callers
                work.append((t, held | h, kind))
        acc = {}
        for i, c in self.done.items():
            for (n, kind, own, t, per, flag, indexed, wrong), (fn, line, sub, loc, tr) in c.acc.items():
                for held, who in seen.get(i, ()):
                    acc.setdefault(n, {}).setdefault((kind, who, own | held, t, per, flag, indexed, wrong, fn['id']), (fn, line, sub, loc, tr))
        self.seen = seen
        return acc

def conflicts(d, kinds=None, published=False):
    """pairs of accesses, at least one of them a write, that may run at the same time without a common lock"""
    L = sorted(d.items(), key=lambda x: (x[0][0] == 'r', str(x[0][1:3]), str(x[0])))
    for k, a in enumerate(L):
        for b in L[k:]:
            (ka, wa, ha, ta, pa), (kb, wb, hb, tb, pb) = a[0][:5], b[0][:5]
            if 'w' not in (ka, kb) or not together(wa, wb): continue
            if pa and pb: continue                      # every thread has its own part
            if ta != tb and ta and tb: continue         # different objects
            if ha & hb: continue
            yield a, b

def site(x): return '%s:%s' % (x[1][0]['n'], x[1][1])
def heldtext(x): return 'holding ' + ', '.join(sorted(x[0][2])) if x[0][2] else 'without a lock'

def process_wide(p):
    """classes whose objects exist once per process"""
    out = set(); statics = set()
    def add(c):
        if c in out or c not in p.classes and c not in {x['n'] for x in p.classes.values()}: return
        out.add(c)
        for x in p.classes.values():
            if x['n'] == c or x.get('full') == c:
                for f in x.get('fields', []):
                    t = x['T'][f['t']]
                    for m in re.findall(r'[A-Za-z_][\w:]*', t):
                        if not t.endswith('*') and m.startswith(x['n'].split('<')[0] + '::'): add(m)
    for g in p.globals.values():
        if not g['file'].startswith('/'):
            t = g['T'][g['t']]
            add(t.split('<')[0]); add(t)
            statics.add(g['n'])
    return out, statics

def shared_by_domains(p):
    """classes of the objects of a grid that all its threads use while they open it"""
    out = set(); todo = ['grid::Grid']
    while todo:
        c = todo.pop()
        if c in out: continue
        out.add(c)
        for x in p.classes.values():
            if x['n'] != c: continue
            for f in x.get('fields', []):
                t = x['T'][f['t']].replace('const ', '')
                if t.endswith('*') and not t.startswith('types::'): continue
                t = t.rstrip(' *&')
                for y in p.classes.values():
                    if y['n'] == t or t in p.all_bases(y.get('full', y['n'])) and t.startswith('types::'): todo.append(y['n'])
    return out

def cls_of(n): return n.rstrip('*').rpartition('::')[0]

def run(rep):
    rep.rule('C24.query', 'whatever queries or the communication thread change (cache index, cached blocks, directories, table of receivers) is accessed by queries and the communication thread under one common lock, is atomic or belongs to one thread')
    rep.rule('C24.process', 'the objects that exist once per process (table of grid handles, communication thread) are accessed under one common lock by whatever may run at the same time: opening, closing and querying of different grids and the communication thread; starting and stopping the communication thread')
    rep.rule('C24.open', 'while all threads open a grid, objects they share are changed only under a lock (or by one thread) and read without it only after the synchronisation that publishes them')
    rep.rule('C24.index', 'where a lock protects one element of an array, the element accessed is the one the lock belongs to')
    for cfg in (['default', 'mt'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        A = Shared(p, Report('C24')); A.threads = thread_functions(p); A.threadid = threadid(p)
        for f in sorted((p.funcs[i] for i in A.relevant), key=lambda f: (f.get('full', ''), f['id'])):
            if 'blocks' in f and f['id'] not in A.done: A.analyse(f)
        R = roots(p, A); X = Contexts(p, rep, A)
        rep.floor('roots in ' + cfg, sum(len(v) for v in R.values()), 20)
        # queries and the communication thread
        acc = X.visit({k: R[k] for k in ('query', 'thread')})
        n = report(rep, p, cfg, 'C24.query', acc, lambda n, d: n not in EXEMPT)
        rep.floor('fields changed by queries or the communication thread in ' + cfg, n, 5)
        for n, d in sorted(acc.items()):
            if not any(x[6] for x in d): continue
            bad = [x for x in d.items() if x[0][7]]
            rep.ob('C24.index', '%s %s' % (cfg, n), not bad, '%s accesses %s[%s] holding the lock of another element' % (site(bad[0]), n, show(bad[0][1][2])[:80]) if bad else '', *(bad[0][1][:2] if bad else (None, None)), trace=bad[0][1][4] if bad else None)
        # objects of the process
        acc = X.visit(R)
        wide, statics = process_wide(p)
        n = report(rep, p, cfg, 'C24.process', {n: d for n, d in acc.items() if cls_of(n) in wide or n.rstrip('*') in statics}, lambda n, d: True)
        rep.floor('fields of process wide objects in ' + cfg, n, 3 if 'nompi' not in cfg else 1)
        # threads that open the same grid
        acc = X.visit({'open': R['open']})
        sh = shared_by_domains(p)
        n = 0
        for f, d in sorted(acc.items()):
            c = cls_of(f)
            if c not in sh or f in EXEMPT: continue
            w = [x for x in d.items() if x[0][0] == 'w' and not own_ctor(x[1][0], c)]
            if not w: continue
            n += 1; where = '%s %s' % (cfg, f)
            free = [x for x in w if not x[0][2]]
            common = frozenset.intersection(*[x[0][2] for x in w])
            rep.ob('C24.open', where, not free, '%s changes %s without a lock while other threads open the grid' % (site(free[0]), f) if free else '', *(free[0][1][:2] if free else (None, None)), trace=free[0][1][4] if free else None)
            if free: continue
            bad = [] if common else w[:1]
            writers = {x[1][0]['id'] for x in w}
            for x in d.items():
                if x[0][0] != 'r' or x[0][2] & common or own_ctor(x[1][0], c): continue
                pub = c not in PUBLISH and any(l.rpartition('::')[0] in PUBLISH for l in common)
                if not pub or x[1][0]['id'] in writers and not x[0][5] and f not in FLAGS: bad.append(x)
            rep.ob('C24.open', where + ' (reads)', not bad, '%s accesses %s %s, it is changed holding %s' % (site(bad[0]), f, heldtext(bad[0]), ', '.join(sorted(common)) or 'different locks') if bad else '', *(bad[0][1][:2] if bad else (None, None)), trace=bad[0][1][4] if bad else None)
        rep.floor('shared fields changed while a grid is opened in ' + cfg, n, 5)
        for i in X.done: rep.analysed(p, p.funcs[i])

def own_ctor(fn, c): return fn.get('kind') in ('ctor', 'dtor') and fn.get('cls') == c or fn.get('kind') == 'ctor'

def report(rep, p, cfg, rule, acc, want):
    n = 0
    for f, d in sorted(acc.items()):
        c = cls_of(f)
        d = {(k[:2] + (k[2] - {DOM0},) + k[3:]): v for k, v in d.items() if not (v[0].get('kind') in ('ctor', 'dtor') and v[0].get('cls') == c)}
        if not any(x[0] == 'w' for x in d) or not want(f, d): continue
        n += 1
        bad = list(conflicts(d))
        a, b = bad[0] if bad else (None, None)
        rep.ob(rule, '%s %s' % (cfg, f), not bad, '%s %s %s (%s), %s %s it (%s)' % (
            site(a), 'changes' if a[0][0] == 'w' else 'reads', f, heldtext(a), site(b), 'changes' if b[0][0] == 'w' else 'reads', heldtext(b)) if bad else '', *(a[1][:2] if bad else (None, None)), trace=a[1][4] if bad else None)
    return n
