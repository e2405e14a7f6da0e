"""C03: all domain masters (and all threads) take part in the same sequence of collectives, whatever fails where."""
from ..query import *
from ..xfer import *
from .c02 import basenames, error_functions, ZERO_OK, NONNEG_OK

def callees(p, g):
    k = ('callees', g['id'])
    c = p.__dict__.setdefault('_c03', {})
    if k in c: return c[k]
    out = set()
    for b in (g['B'] if g.get('blocks') else {}).values():
        for e in b['e']:
            if e.get('fn') is not None and e.get('k') in ('call', 'ctor', 'new', 'vcall', 'mcall') or e.get('fn') is not None: out.add(e['fn'])
    c[k] = out
    return out

def reaches(p, g, hit, seen=None):
    """some call chain from g reaches a function for which hit() holds"""
    c = p.__dict__.setdefault('_c03', {})
    k = ('reach', id(hit), g['id'])
    if k in c: return c[k]
    seen, todo, r = set(), [g['id']], False
    while todo and not r:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        f = p.funcs.get(i)
        if f is None: continue
        if i != g['id'] and hit(f): r = True; break
        for x in callees(p, f):
            todo.append(x)
            todo.extend(p.overriders.get(x, ()))
    c[k] = r
    return r

def is_primitive(f): return f['n'].startswith('threads::Sync::') and f['sn'] in ('broadcast', 'barrier', 'startBarrier')

class SyncClient(InitClient):
    """events: ('coll', kind, key, result class, own contribution)"""
    def __init__(self, prog, root, agreeing, domain, master=True):
        InitClient.__init__(self, prog); self.root = root; self.agreeing = agreeing; self.domain = domain; self.master = master
        self.maxev = 60; self.bases = basenames(prog, root.get('cls'))
    def near(self, f):
        c = f.get('cls') or ''
        if loops_of(f) and not reaches(self.p, f, is_primitive): return False
        if not c: return f.get('file') == self.root.get('file')
        if c == self.root.get('cls') or c.startswith(('std::', 'threads::', 'utils::')) or c in self.bases: return True
        return len(f['B']) <= 4 and bool(f.get('const'))
    def coll(self, st, *ev): self.emit(st, ('coll',) + ev)
    def special(self, eng, st, fr, node, name, obj, args):
        p = name.split('::'); sn = p[-1]
        t = fr.fn['T'][node['t']] if isinstance(node.get('t'), int) and node['t'] >= 0 else ''
        g = self.p.funcs.get(node.get('fn'))
        ld = lambda a: eng.load(st, a, fr, node) if a is not None and a[0] != 'obj' else a
        if name.startswith('numa::') and sn == 'domainId': return [(st, C(self.domain))]
        if name.startswith('numa::') and sn == 'totalDomains': return [(st, S('totalDomains'))]
        if is_agree(self.p, fr, node, name):
            a = ld(args[0]); out = agree_contract(eng, st, fr, node, a)
            for s, v in out: self.coll(s, 'agree', sn, v == ZERO, None)
            return out
        if name.startswith('numa::') and sn == 'broadcast':
            l = eng.canon(st, args[0][1]) if args[0] is not None and args[0][0] in ('L', 'obj') else None
            root = ld(args[1]) if len(args) > 1 and args[1] is not None else ZERO
            scope = 'threads' if p[-2] == 'Numa' else 'domains'
            v = eng.load(st, ('L', l)) if l is not None else None
            isroot = eng.decide(st, cmp('==', root, C(self.domain))) if scope == 'domains' else None
            if is_err_type(vtype(self.p, fr, node)):
                # the outcome of the root becomes known to all
                out = []
                for ok in (True, False):
                    s = st.copy()
                    if isroot:
                        d = eng.decide(s, cmp('==', v, ZERO))
                        if d is not None and d != ok: continue
                        eng.assume(s, cmp('==', v, ZERO), ok)
                    else:
                        n = sum(1 for e in self.evs(s) if e[0] == 'coll')
                        v2 = ZERO if ok else S('error of the root %d' % n)
                        if not ok: eng.assume(s, cmp('!=', v2, ZERO), True)
                        eng.write(s, l, v2)
                    self.coll(s, 'broadcast to ' + scope, showloc(root) if False else show(root), ok, None)
                    s.path = (s.path, (fr.fn['file'], node.get('l'), 'the root reports ' + ('success' if ok else 'an error')))
                    out.append((s, ZERO))
                return out
            self.coll(st, 'broadcast to ' + scope, '%s root %s' % (lockname(l) if l is not None else '?', show(root)), None, None)
            if not isroot and l is not None and l[0] in ('v', 'f'): eng.write(st, l, ('op', 'from root', show_c(l)))
            return [(st, ZERO)]
        if name.startswith('numa::') and sn == 'barrier':
            self.coll(st, 'barrier', p[-2], None, None); return [(st, ZERO)]
        if name.startswith('threads::Sync::') and sn in ('startBarrier', 'waitBarrier', 'endBarrier', 'barrier', 'broadcast'):
            self.coll(st, sn, showloc(obj) if obj else '?', None, None)
            # between start and wait the threads run one after the other: each sees other values; afterwards all see the same
            if sn == 'startBarrier': self.havoc(eng, st, fr, 'local')
            if sn == 'waitBarrier': self.havoc(eng, st, fr, 'common')
            return [(st, ONE)]
        if sn in ('saveExec',): return [(st, ZERO)]
        if name.startswith('numa::') and sn == 'registerThread':
            out = []
            for ok in (True, False):
                s = st.copy()
                if args[0] is not None and args[0][0] == 'L': eng.write(s, eng.canon(s, args[0][1]), C(self.master))
                v = ZERO if ok else S('error of registerThread')
                if not ok: eng.assume(s, cmp('!=', v, ZERO), True)
                self.coll(s, 'nested', name, ok if name in self.agreeing else None, None)
                s.path = (s.path, (fr.fn['file'], node.get('l'), 'registration ' + ('succeeds' if ok else 'fails')))
                out.append((s, v))
            return out
        collective = g is not None and (is_primitive(g) or reaches(self.p, g, is_primitive) or any(reaches(self.p, self.p.funcs[o], is_primitive) for o in self.p.overriders.get(g['id'], ()) if o in self.p.funcs))
        err = is_err_type(t)
        if collective and not (err is False and self.near(g) and not g['n'].startswith('std::') and g.get('blocks')):
            key = '::'.join(p[-2:])
            if err:
                out = []
                for ok in (True, False):
                    s = st.copy(); v = ZERO if ok else S('error of ' + key)
                    if not ok: eng.assume(s, cmp('!=', v, ZERO), True)
                    self.coll(s, 'nested', key, ok if self.is_agreeing(g) else None, None)
                    s.path = (s.path, (fr.fn['file'], node.get('l'), key + (' succeeds' if ok else ' fails')))
                    out.append((s, v))
                return out
            if not (self.near(g) and g.get('blocks') and g['n'].startswith('numa::') is False and not node['k'] == 'ctor'):
                self.coll(st, 'nested', key, None, None)
                return [(st, eng.do_opaque(st, fr, node, name, obj, [ld(x) for x in args]))]
            return None
        if err and not sn.startswith('operator'):
            s2 = st.copy(); v = S('error of ' + '::'.join(p[-2:]))
            if self.near(g) if g is not None and g.get('blocks') else False:
                if g['id'] != self.root['id']: return None
            s2.path = (s2.path, (fr.fn['file'], node.get('l'), '::'.join(p[-2:]) + ' fails'))
            eng.assume(s2, cmp('!=', v, ZERO), True)
            if not may_fail(self.p, g): return [(st, ZERO)]
            return [(st, ZERO), (s2, v)]
        if name in ZERO_OK or name in NONNEG_OK:
            s2 = st.copy(); v = S('error of ' + name)
            s2.path = (s2.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            if name in ZERO_OK: eng.assume(s2, cmp('!=', v, ZERO), True); good = ZERO
            else:
                eng.assume(s2, cmp('<', v, ZERO), True); good = S('some ' + name); eng.assume(st, cmp('<', good, ZERO), False)
            return [(st, good), (s2, v)]
        if g is not None and g.get('blocks') and not self.near(g) or g is None or not g.get('blocks'):
            return [(st, eng.do_opaque(st, fr, node, name, obj, [ld(x) for x in args]))] if name.split('::')[0] not in ('std',) and not name.startswith('operator') else None
        return None
    def is_agreeing(self, g):
        ids = [g['id']] + [o for o in self.p.overriders.get(g['id'], ())]
        ids = [i for i in ids if i in self.p.funcs and self.p.funcs[i].get('blocks')]
        return bool(ids) and all(i in self.agreeing or not reaches_agree(self, i) for i in ids)
    def havoc(self, eng, st, fr, how):
        root = ('d', ('i', ('this',)))
        names = {k for k in st.store if k[0] == 'f' and locroot(k) == locroot(THISLOC)}
        for c in [self.root.get('cls')] + list(self.bases):
            for f in self.p.classes.get(c, {}).get('fields', ()): names.add(('f', THISLOC, f['n']))
        for k in names:
            eng.write(st, k, ('op', how, show_c(k)))
            st.store[('f', k, '#size')] = ('op', how, C(lockname(k) + '.#size'))

def reaches_agree(c, i): return True
def may_fail(p, g, seen=()):
    """a function that only returns success (directly or from functions that do) does not fail"""
    if g is None: return True
    if not g.get('blocks'):
        os_ = [p.funcs[o] for o in p.overriders.get(g['id'], ()) if o in p.funcs]
        return not os_ or any(may_fail(p, o, seen + (g['id'],)) for o in os_)
    if g['id'] in seen: return False
    for o in p.overriders.get(g['id'], ()):
        if o in p.funcs and o != g['id'] and may_fail(p, p.funcs[o], seen + (g['id'],)): return True
    for b in g['B'].values():
        el = {e['i']: e for e in b['e'] if 'i' in e}
        for e in b['e']:
            if e['k'] != 'ret' or not e.get('e'): continue
            x = el.get(e['e'].get('r'))
            while x is not None and x['k'] == 'cast': x = el.get(x['e'].get('r'))
            if x is None: return True
            if x.get('cv') == 0: continue
            if x['k'] == 'call' and x.get('fn') in p.funcs and not may_fail(p, p.funcs[x['fn']], seen + (g['id'],)): continue
            return True
    return False
def show_c(l): return C(lockname(l))
def vtype(p, fr, node):
    """type of the value a broadcast transports"""
    g = p.funcs.get(node.get('fn'))
    if g is None: return ''
    t = g['T'][g['params'][0]['t']] if g['params'] else ''
    return t.replace('&', '').strip()

def uniform(t):
    """the same for all threads: parameters, members (all threads open with the same arguments and history), common values"""
    ok = [True]
    def walk(x):
        if not ok[0] or not isinstance(x, tuple): return
        if x and (x[0] in ('r', 'o', 'phi') or x[:2] in (('op', 'local'), ('op', 'in'))): ok[0] = False; return
        if x and x[0] == 'i':
            l = x[1]
            if l[0] == 'p' and (l[1].startswith(('error of', 'some ')) or l[1] == 'threadId'): ok[0] = False
            if l[0] in ('v',): ok[0] = False
            return
        for y in x: walk(y)
    walk(t)
    return ok[0]

def joint(rep, rule, w, fn, A, B, roles):
    """compare every pair of paths of two participants; returns whether the outcomes always agree"""
    agree = True; pairs = 0; bad = None
    for ea, sa, va, ta in A:
        for eb, sb, vb, tb in B:
            if any(sb.conds.get(k, v) != v for k, v in sa.conds.items() if uniform(k)): continue
            feasible = True; n = min(len(ea), len(eb)); k = 0
            while k < n:
                x, y = ea[k], eb[k]
                if x[1:3] != y[1:3]: break
                if x[3] is not None and y[3] is not None and x[3] != y[3]: feasible = False; break
                k += 1
            if not feasible: continue
            pairs += 1
            if k < len(ea) or k < len(eb):
                if bad is None: bad = (k, ea, eb, ta, tb)
                continue
            if va != vb: agree = False
    if bad:
        k, ea, eb, ta, tb = bad
        what = lambda e: ' '.join(str(z) for z in e[k][1:3]) if k < len(e) else 'returns'
        rep.ob(rule, w, False, 'after %d common collectives %s: %s, but %s: %s' % (k, roles[0], what(ea), roles[1], what(eb)), fn,
               trace=[('', '', roles[0] + ':')] + list(ta)[-8:] + [('', '', roles[1] + ':')] + list(tb)[-8:])
    else: rep.ob(rule, w, pairs > 0, 'no comparable pair of paths', fn)
    return agree and not bad

def path_classes(p, fn, rep, domain, agreeing, master=True):
    c = SyncClient(p, fn, agreeing, domain, master)
    e0 = Engine(p, Client())
    out = {}
    for ev, held, s, v in paths(p, fn, rep, client=c, budget=400000):
        seq = tuple(x for x in ev if x[0] == 'coll')
        if v is None: cls = 'void'
        else:
            d = e0.decide(s, cmp('==', v, ZERO))
            cls = 'ok' if d is True else 'err' if d is False else ('?' + show(v))
            if d is None and not uniform(v): cls = '?%s@%d' % (show(v), domain)
        un = {k: x for k, x in s.conds.items() if uniform(k)}
        key = (seq, cls, frozenset(un.items()))
        if key not in out: out[key] = (seq, s, cls, s.trace())
    return list(out.values())

def contract(rep, p):
    """the combining operations deliver success iff every domain contributed success, with the same collectives everywhere"""
    n = 0
    for fn in p.funcs.values():
        if not fn['n'].startswith('numa::') or not fn.get('blocks') or not fn.get('params'): continue
        if not is_err_type(fn['T'][fn['ret']] if isinstance(fn.get('ret'), int) else ''): continue
        if fn['params'][0].get('isref') or not is_err_type(fn['T'][fn['params'][0]['t']]): continue
        n += 1
        for D in (1, 2, 3):
            for errs in [[0] * D] + [[0] * i + [7] + [0] * (D - i - 1) for i in range(D)] + [[3 + i for i in range(D)]]:
                seqs, results = [], []
                for d in range(D):
                    seq = []
                    def bc(e, s, nd, o, a):
                        root = e.load(s, a[1]) if len(a) > 1 and a[1] is not None else ZERO
                        l = e.canon(s, a[0][1])
                        if not is_num(root) or not 0 <= root[1] < D:
                            s.ts = (s.ts or ()) + (('bad root ' + show(root),),); return ZERO
                        own = e.load(s, ('L', l))
                        s.ts = (s.ts or ()) + ((root[1], own if root[1] == d else None),)
                        # what the root contributes: its own code
                        if root[1] != d: e.write(s, l, C(errs[root[1]]))
                        return ZERO
                    h = {'numa::NumaComm::broadcast': bc, 'numa::NumaComm::totalDomains': C(D), 'numa::NumaComm::domainId': C(d), 'numa::Numa::totalDomains': C(D), 'numa::Numa::domainId': C(d)}
                    res, e = summary(p, fn, h, args=[C(errs[d])], rep=rep)
                    for s, v in res:
                        seqs.append((d, tuple(x[0] for x in (s.ts or ())))); results.append((d, e.load(s, v)))
                        for x in (s.ts or ()):
                            if len(x) > 1 and x[1] is not None: rep.ob('C03.agree', '%s: every domain contributes its own code' % fn['n'], x[1] == C(errs[d]), 'domain %d contributes %s instead of its own code %d' % (d, show(x[1]), errs[d]), fn)
                rep.ob('C03.agree', '%s: the same broadcasts on every domain' % fn['n'], len(set(s for _, s in seqs)) == 1, '%d domains, codes %s: %s' % (D, errs, seqs), fn)
                want = any(errs)
                for d, v in results:
                    rep.ob('C03.agree', '%s: an error iff some domain has one' % fn['n'], is_num(v) and (v[1] != 0) == want, 'codes %s: domain %d gets %s' % (errs, d, show(v)), fn)
    return n

def run(rep):
    rep.rule('C03.sequence', 'for two participants and every combination of their local outcomes: the collectives are the same, in the same order')
    rep.rule('C03.agree', 'the operation that combines error codes contributes the own code and fails iff some domain failed')
    n = 0; names = set(); ag = {}
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        contract(rep, p)
        todo = []; seen = set()
        for fn in error_functions(p):
            if fn['file'].startswith(('/verif', '/usr')): continue
            if fn['n'].startswith(('threads::', 'numa::NumaComm::broadcast', 'numa::Numa::b')): continue
            if not reaches(p, fn, is_primitive): continue
            if len(fn['params']) and is_err_type(fn['T'][fn['params'][0]['t']]) and fn['n'].startswith('numa::'): continue
            todo.append(fn)
        # callees first
        order = []; ids = {f['id']: f for f in todo}
        def visit(f, stack):
            if f['id'] in seen or f['id'] in stack: return
            for c in list(callees(p, f)):
                for x in [c] + list(p.overriders.get(c, ())):
                    if x in ids: visit(ids[x], stack | {f['id']})
            if f['id'] not in seen: seen.add(f['id']); order.append(f)
        for f in todo: visit(f, set())
        agreeing = set()
        for fn in order:
            n += 1; names.add(fn['n'])
            w = fn['n']
            if fn['n'] == 'numa::Numa::registerThread':
                A = path_classes(p, fn, rep, 0, agreeing); B = path_classes(p, fn, rep, 1, agreeing)
                if joint(rep, 'C03.sequence', w + ': two threads', fn, A, B, ('one thread', 'another thread')): agreeing.add(fn['n'])
                continue
            if fn['n'] == 'grid::Grid::open':
                A = path_classes(p, fn, rep, 0, agreeing, True); B = path_classes(p, fn, rep, 1, agreeing, True); M = path_classes(p, fn, rep, 1, agreeing, False)
                joint(rep, 'C03.sequence', w + ': two domain masters', fn, A, B, ('the master of domain 0', 'the master of domain 1'))
                th = lambda P: [(tuple(x for x in seq if not (x[1] == 'nested' and 'registerThread' not in x[2])), s, v, t) for seq, s, v, t in P]
                joint(rep, 'C03.sequence', w + ': a master and another thread', fn, th(A), th(M), ('the domain master', 'another thread'))
                continue
            A = path_classes(p, fn, rep, 0, agreeing); B = path_classes(p, fn, rep, 1, agreeing)
            ok = joint(rep, 'C03.sequence', w, fn, A, B, ('domain 0', 'domain 1'))
            if ok: agreeing.add(fn['id'])
            rep.notes.append('%s [%s]: %s' % (fn.get('full') or fn['n'], cfg, 'same outcome on all domains' if ok else 'outcome may differ')) if len(rep.notes) < 60 else None
    rep.floor('collective functions', len(names), 10)
    rep.floor('collective function instances', n, 40)
