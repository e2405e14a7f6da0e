"""C16: netCDF calls under one common lock (monitor over the call graph); typestate of the file handle."""
from ..locks import *
from ..engine import calls, walk_nodes
from .c13 import Monitor

NC = lambda n: n.startswith('nc_') and n not in ('nc_strerror',)
RD = 'io::NetCdfReader'

OUT = {'nc_inq_varid': (2,), 'nc_inq_varndims': (2,), 'nc_inq_dim': (2, 3), 'nc_inq_dimlen': (2,), 'nc_inq_dimname': (2,),
       'nc_inq_vartype': (2,), 'nc_inq_type': (2, 3), 'nc_inq_var': (2, 3, 4, 5, 6), 'nc_get_var1_double': (3,), 'nc_inq_vardimid': (2,)}
FALLIBLE = ('nc_inq_varid',)

def nclock(p):
    """the mutex every netCDF call site agrees on: static objects of a real mutex type used in the files that call netCDF"""
    out = []
    for g in p.globals.values() if isinstance(p.globals, dict) else p.globals:
        t = g.get('t', ''); t = g['T'][t] if isinstance(t, int) and 'T' in g else str(t)
        if any(t.split('::')[-1] == x.split('::')[-1] for x in LOCK_CLS + NOOP_CLS + ('threads::Mutex',)) or 'mutex' in t.lower():
            out.append((g['n'], t))
    return out

class NcClient(LockClient):
    """netCDF calls as events; nc_open and variable look-up may fail"""
    def event(self, *a): pass
    def special(self, eng, st, fr, node, name, obj, args):
        if not name.startswith('nc_'):
            if name.endswith('::operator=') and len(args) >= 1 and obj is not None:
                return None
            return None
        a = []
        for x in args:
            v = eng.load(st, x, fr, node) if x is not None else None
            a.append(v)
        k = sum(1 for e in self.evs(st) if e[0] == name)
        ev = [name]
        for j, v in enumerate(a):
            if j in OUT.get(name, ()) or (name == 'nc_open' and j == 2): ev.append(('out', Engine.deref(v) if v is not None and v != ZERO else None)); continue
            ev.append(v)
        # arrays of indices: their contents at the time of the call
        if name.startswith('nc_get_var1'): ev[3] = eng.read(st, eng.canon(st, Engine.deref(a[2])))
        if name.startswith(('nc_get_vara', 'nc_get_varm', 'nc_get_vars')):
            ev += [('arrays', tuple(self.array(eng, st, a[j]) for j in ((2, 3) if 'vara' in name else (2, 3, 4, 5) if 'varm' in name else (2, 3, 4))))]
        ok = st
        if name == 'nc_open':
            bad = st.copy()
            bad.path = (bad.path, (fr.fn['file'], node.get('l'), 'nc_open fails'))
            eng.write(st, eng.canon(st, Engine.deref(a[2])), ('op', 'ncid', C(k)))
            eng.write(bad, eng.canon(bad, Engine.deref(a[2])), ('op', 'junk', C(k)))
            eng.assume(st, cmp('>=', ('op', 'ncid', C(k)), ZERO), True)
            self.emit(st, tuple(ev)); self.emit(bad, ('nc_open fails',))
            eng.assume(bad, cmp('!=', ('op', 'ncerr', C(k)), ZERO), True)
            self.seen(eng, st, fr, node, name)
            return [(st, ZERO), (bad, ('op', 'ncerr', C(k)))]
        self.seen(eng, st, fr, node, name)
        for j in OUT.get(name, ()):
            if j < len(a) and a[j] is not None and a[j] != ZERO:
                if name == 'nc_inq_vardimid':
                    d = eng.canon(st, Engine.deref(a[j]))
                    d = d[1] if d[0] == 'e' else d
                    for i in range(8): eng.write(st, ('e', d, C(i)), ('op', 'dimid', C(k), C(i)))
                    continue
                eng.write(st, eng.canon(st, Engine.deref(a[j])), ('op', name[3:], C(k), C(j)))
        self.emit(st, tuple(ev))
        if name in FALLIBLE or name == 'nc_close':
            if name == 'nc_close': return [(st, ZERO)]
            bad = st.copy(); bad.path = (bad.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            eng.assume(bad, cmp('!=', ('op', 'ncerr', C(k), S(name)), ZERO), True)
            return [(st, ZERO), (bad, ('op', 'ncerr', C(k), S(name)))]
        return [(st, ZERO)]
    D = 4
    def array(self, eng, st, v):
        if v is None or v == ZERO: return None
        b = eng.canon(st, Engine.deref(v))
        if b[0] == 'e': b, o = b[1], b[2]
        else: o = ZERO
        out = []
        for i in range(self.D):
            ix = add(o, C(i))
            l = ('e', b, ix)
            if b[0] == 'd' and ix == ZERO: l = b
            out.append(eng.read(st, eng.canon(st, l)))
        return tuple(out)
    def seen(self, eng, st, fr, node, name): pass

def handle_field(p, fn, rep):
    """the member that holds the identifier returned by nc_open after a successful open"""
    c = NcClient(p); res, e = summary(p, fn, client=c, rep=rep)
    fields = None; out = []
    for s, v in res:
        v = e.load(s, v)
        out.append((s, v, c.evs(s)))
        if v == ZERO:
            fs = {l for l, x in s.store.items() if x[:2] == ('op', 'ncid') and under(l, THISLOC)}
            fields = fs if fields is None else fields & fs
    if not fields: return None, out, e
    return sorted(fields, key=repr)[0], out, e

def run(rep):
    rep.rule('C16.locked', 'every netCDF call of the library is reached only with the common netCDF lock held')
    rep.rule('C16.onelock', 'the lock is one static object of a real mutex type in every thread-safe build')
    rep.rule('C16.balanced', 'functions called from outside return without the lock')
    rep.rule('C16.open', 'a successful open keeps the identifier of the file; a failing open closes the file it opened exactly once and leaves the reader closed')
    rep.rule('C16.close', 'the destructor closes the file exactly once if and only if it is open')
    rep.rule('C16.owner', 'the handle starts closed, is changed by no other function, and readers are never copied')
    for cfg, p in programs(['default', 'nompi'] if TIER != 'quick' else ['default']).items():
        sites = []
        for f in p.funcs.values():
            for n in calls(f):
                if NC(n.get('n') or ''): sites.append((f, n))
        rep.floor(cfg + ': netCDF call sites', len(sites), 15)
        # the lock: the mutex most sites hold; every site must then hold it
        cands = nclock(p); best = None
        for name, t in cands:
            lock = ('g', name)
            m = Monitor(p, rep, lock, lambda f: False, pred=NC)
            bad = []; good = 0; n = 0
            roots = []
            for i in sorted(m.rel):
                f = p.funcs[i]
                exits, pr = m.summary(i, (False, False))
                cl = [c for c in m.callers.get(i, ()) if c in m.rel]
                if cl and not (f.get('virtual') or any(i in o for o in p.overriders.values())): continue
                roots.append((f, exits, pr))
            nbad = sum(len(pr) for _, _, pr in roots)
            if best is None or nbad < best[0]: best = (nbad, name, t, m, roots)
        if best is None: raise AnalysisBroken('no static mutex in the program')
        nbad, name, t, m, roots = best
        rep.ob('C16.onelock', 'type of ' + name, t.split('::')[-1] in [x.split('::')[-1] for x in LOCK_CLS], 'the lock of the netCDF calls is a %s' % t)
        for f, exits, pr in roots:
            for (kind, fn, msg), (g, l, tr) in pr.items():
                rep.ob('C16.locked', '%s in %s' % (msg, fn), False, '%s is called without %s (reached from %s)' % (msg, name, f['n']), g, l, tr)
            if not pr: rep.ob('C16.locked', 'everything reached from %s' % f['n'], True)
            rep.ob('C16.balanced', f['n'], all(not x[0] for x in exits), 'returns with %s held on a path' % name, f)
        rep.floor(cfg + ': call sites reached', len(m.sites), 15)
        # ---- the handle
        op = p.fn(RD + '::open'); hf, res, eng = handle_field(p, op, rep)
        rep.ob('C16.open', 'a successful open keeps the file identifier', hf is not None, 'no member holds the identifier of the opened file when open() succeeds', op)
        if hf is None: continue
        def closed(s, v): return Engine(p, Client()).decide(s, cmp('>=', v, ZERO)) is False
        nok = 0
        for s, v, ev in res:
            tr = s.trace()
            opened = [x for x in ev if x[0] == 'nc_open']; closes = [x for x in ev if x[0] == 'nc_close']
            h = s.store.get(hf, ('i', hf))
            if v == ZERO:
                nok += 1
                rep.ob('C16.open', 'a successful open opens the file once and does not close it', len(opened) == 1 and not closes, 'opens %d, closes %d' % (len(opened), len(closes)), op, trace=tr)
            else:
                what = 'after nc_open' if opened else 'nc_open fails'
                rep.ob('C16.open', 'a failing open (%s) closes the file it opened exactly once' % what, len(closes) == len(opened) and all(x[1][:2] == ('op', 'ncid') for x in closes), 'opens %d, closes %s' % (len(opened), [show(x[1]) for x in closes]), op, trace=tr)
                rep.ob('C16.open', 'a failing open (%s) leaves the reader closed' % what, closed(s, h), 'the reader still refers to a file (%s)' % show(h), op, trace=tr)
        rep.floor(cfg + ': successful open paths', nok, 1)
        for fn in p.fns(RD + '::' + RD.split('::')[-1]):
            if [q for q in fn['params'] if 'NetCdfReader' in (q['t'] if isinstance(q['t'], str) else fn['T'][q['t']])]: continue
            for s, v in summary(p, fn, rep=rep)[0]:
                rep.ob('C16.owner', 'a new reader is closed', closed(s, s.store.get(hf, ('i', hf))), 'a new reader starts with handle %s' % show(s.store.get(hf, ('i', hf))), fn)
        D = p.fn(RD + '::~NetCdfReader')
        c = NcClient(p); r, e = summary(p, D, client=c, rep=rep)
        for s, v in r:
            cl = [x for x in c.evs(s) if x[0] == 'nc_close']; o = e.decide(s, cmp('>=', ('i', hf), ZERO))
            tr = s.trace()
            if o is not False: rep.ob('C16.close', 'an open file is closed once', len(cl) == 1 and cl[0][1] == ('i', hf), 'closes %s' % [show(x[1]) for x in cl], D, trace=tr)
            if o is not True: rep.ob('C16.close', 'a closed reader closes nothing', not cl, 'closes %s' % [show(x[1]) for x in cl], D, trace=tr)
        for fn in p.fns(RD + '::isOpen', required=False):
            for val, want in ((C(0), 1), (C(5), 1), (C(-1), 0)):
                for s, v in summary(p, fn, store={hf: val}, rep=rep)[0]:
                    rep.ob('C16.close', 'isOpen reports the state of the handle', truth(v) == C(want), 'isOpen() is %s for handle %s' % (show(v), show(val)), fn)
        # nobody else writes the handle
        class W(NcClient):
            inner = True
            def __init__(self, p): NcClient.__init__(self, p); self.bad = []
            def inline(self, eng, fn, name): return False
            def write(self, eng, st, fr, node, loc, val):
                if eng.canon(st, loc) == hf: self.bad.append(node.get('l') if isinstance(node, dict) else None)
        for f in p.funcs.values():
            if f.get('cls') != RD or not f.get('blocks') or f['sn'] in ('open', 'NetCdfReader') or f['sn'].startswith('~') or not any(n['k'] == 'mem' and n.get('f') == hf[2] for n in walk_nodes(f)): continue
            cl = [g for g in p.funcs.values() if any(n.get('fn') == f['id'] for n in calls(g))]
            if cl and all(g.get('cls') == RD and (g['sn'] in ('open', 'NetCdfReader') or g['sn'].startswith('~')) for g in cl): continue      # a helper of those, inlined there
            c = W(p)
            summary(p, f, client=c, rep=rep)
            rep.ob('C16.owner', f['full'] + ' does not change the handle', not c.bad, 'writes ' + showloc(hf), f, c.bad[0] if c.bad else None)
        # never copied
        copies = []
        for f in p.funcs.values():
            for n in walk_nodes(f):
                if n['k'] == 'ctor' and (n.get('n') or '') == RD + '::NetCdfReader':
                    ts = n.get('pt') or []
                    if any('NetCdfReader' in (f['T'][t] if isinstance(t, int) and 0 <= t < len(f['T']) else str(t)) for t in ts): copies.append((f, n.get('l')))
                if n['k'] == 'call' and (n.get('n') or '') == RD + '::operator=': copies.append((f, n.get('l')))
        rep.ob('C16.owner', 'readers are never copied', not copies, 'copies a reader: the file would be closed twice', copies[0][0] if copies else None, copies[0][1] if copies else None)
