"""C20: the once guard as a typestate, and the publication of the lazily created MPI types."""
from ..locks import *
from ..xfer import *

ONCE = 'threads::Once'
ACQ = {'memory_order_acquire', 'memory_order_seq_cst', 'memory_order_acq_rel'}

class OnceClient(LockClient):
    def __init__(self, p, atomics):
        LockClient.__init__(self, p); self.atomics = atomics
    def order(self, eng, args):
        for a in args:
            if a is not None and a[0] == 'c' and a[1] in ORD: return ORD[a[1]]
        return None
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if not name and node['k'] == 'call':
            self.emit(st, ('exec', bool(self.held(st)), fr.fn['n'], node.get('l'))); return [(st, ZERO)]
        q = name.split('::'); sn = q[-1]
        if (name.startswith('std::atomic::') or name.startswith('std::__atomic')) and obj is not None:
            o = eng.canon(st, obj); a = [ld(x) for x in args]
            site = (fr.fid, node.get('i'))
            if sn == 'load' or sn.startswith('operator ') :
                od = ordername(a[0]) if sn == 'load' and a else 'memory_order_seq_cst'
                v = self.flagval(eng, st, o, site)
                self.emit(st, ('aload', o, v, od, bool(self.held(st)), node.get('l')))
                return [(st, v)]
            if sn in ('operator=', 'store'):
                od = ordername(a[1]) if sn == 'store' and len(a) > 1 else 'memory_order_seq_cst'
                eng.write(st, ('f', o, '#val'), a[0]); self.emit(st, ('astore', o, a[0], od, bool(self.held(st)), node.get('l')))
                return [(st, a[0])]
            if sn in ('exchange', 'compare_exchange_strong', 'compare_exchange_weak'):
                v = self.flagval(eng, st, o, site)
                self.emit(st, ('aload', o, v, 'memory_order_seq_cst', bool(self.held(st)), node.get('l')))
                new = a[0] if sn == 'exchange' else a[1]
                eng.write(st, ('f', o, '#val'), new); self.emit(st, ('astore', o, new, 'memory_order_seq_cst', bool(self.held(st)), node.get('l')))
                return [(st, v if sn == 'exchange' else cmp('==', v, ZERO))]
            self.emit(st, ('aother', o, sn, node.get('l')))
        return None
    def flagval(self, eng, st, o, site):
        """another thread may set the flag at any time the mutex is not held"""
        cur = st.store.get(('f', o, '#val'))
        if cur is not None and self.held(st): return cur
        v = ('r', site, eng.count(st, site), 'flag')
        if self.held(st): st.store[('f', o, '#val')] = v
        return v
    def read(self, eng, st, fr, node, loc):
        loc = eng.canon(st, loc)
        if loc[0] == 'f' and loc[1] == THISLOC and fr.fn.get('cls') == ONCE and loc not in self.atomics:
            self.emit(st, ('pload', loc, bool(self.held(st)), node.get('l') if isinstance(node, dict) else None))
    def write(self, eng, st, fr, node, loc, val):
        loc = eng.canon(st, loc)
        if loc[0] == 'f' and loc[1] == THISLOC and fr.fn.get('cls') == ONCE and loc not in self.atomics:
            self.emit(st, ('astore', loc, val, None, bool(self.held(st)), node.get('l') if isinstance(node, dict) else None))
    def on_lock(self, eng, st, fr, node, loc, how):
        # what was read before the lock was taken may be stale now
        for f in self.p.classes[ONCE]['fields']:
            st.store.pop(('f', F(f['n']), '#val'), None)
            if F(f['n']) in st.store and f.get('cls') is None: st.store[F(f['n'])] = ('o', (fr.fid, node.get('i')), eng.count(st, (fr.fid, node.get('i'))), f['n'])
        self.emit(st, ('lock', loc))
    def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))

ORD = {0: 'memory_order_relaxed', 1: 'memory_order_consume', 2: 'memory_order_acquire', 3: 'memory_order_release', 4: 'memory_order_acq_rel', 5: 'memory_order_seq_cst'}
def ordername(v): return ORD.get(v[1], '?') if v is not None and v[0] == 'c' else '?'

def once(rep, p):
    n = 0
    cl = p.classes[ONCE]
    atom = {F(f['n']) for f in cl['fields'] if 'atomic' in cl['T'][f['t']] or 'atomic' in (f.get('cls') or '')}
    eng = Engine(p, Client())
    flags = set()
    for fn in [f for f in p.funcs.values() if f.get('cls') == ONCE and f.get('blocks') and not f.get('kind') and any(not c.get('n') for c in calls(f))]:
        c = OnceClient(p, atom); e = Engine(p, c, 100000); res = e.run(fn); rep.engine(p, e)
        for s, v in res:
            n += 1; tr = s.trace(); ev = c.evs(s)
            def ob(rule, what, ok, msg, line=None): rep.ob(rule, '%s: %s' % (fn['n'], what), ok, msg, fn, line, tr)
            ex = [i for i, x in enumerate(ev) if x[0] == 'exec']
            done = [i for i, x in enumerate(ev) if x[0] == 'astore']
            for x in ev: ob('C20.once', 'only known operations on the flag', x[0] != 'aother', 'operation %s' % x[2] if x[0] == 'aother' else '', None)
            ob('C20.lock', 'no lock is left held', not c.held(s), 'returns with the mutex held')
            ob('C20.once', 'the function is executed at most once', len(ex) <= 1, 'executed %d times on one path' % len(ex))
            for i in ex:
                ob('C20.once', 'the function is executed with the mutex held', ev[i][1], 'executed without the mutex', ev[i][3])
                seen = [x for j, x in enumerate(ev) if j < i and x[0] in ('aload', 'pload') and lockedsince(ev, j, i)]
                neg = [x for x in seen if eng.decide(s, truth(val(x, s))) is False]
                ob('C20.once', 'the flag is checked with the mutex held before the function is executed', bool(neg), 'the flag is not checked again after the mutex was taken', ev[i][3])
                st = [j for j in done if j > i]
                ob('C20.complete', 'the flag is set after the function has been executed', bool(st) and not [j for j in done if j < i], 'the flag is set before the function has returned' if [j for j in done if j < i] else 'the flag is never set')
                for j in done: flags.add(ev[j][1]); ob('C20.complete', 'the flag is set to true', eng.decide(s, truth(ev[j][2])) is True, 'set to %s' % show(ev[j][2]))
                ob('C20.once', 'the flag is set before the mutex is released', any(lockedsince(ev, i, j) for j in st), 'another thread may execute the function in between')
                for j in st: ob('C20.visible', 'setting the flag publishes the effects', ev[j][3] in ('memory_order_seq_cst', 'memory_order_release', 'memory_order_acq_rel') or not any(x[0] == 'aload' and not x[4] for r in res for x in c.evs(r[0])), 'stored with %s' % ev[j][3])
            if not ex:
                ob('C20.complete', 'the flag is not set without executing the function', not done, 'the flag is set')
                pos = [x for x in ev if x[0] in ('aload', 'pload') and eng.decide(s, truth(val(x, s))) is True]
                ob('C20.complete', 'a thread that does not execute the function has seen the flag', bool(pos), 'returns although the function may not have been executed')
                for x in pos:
                    if x[0] == 'aload': ob('C20.visible', 'a flag read without the mutex makes the effects visible', x[4] or x[3] in ACQ, 'read with %s' % x[3], x[5])
            for x in ev:
                if x[0] == 'pload': ob('C20.visible', 'a flag that is not atomic is only read with the mutex held', x[2], '%s is read without the mutex' % showloc(x[1]), x[3])
    for fn in [f for f in p.fns(ONCE + '::Once') if f.get('blocks')]:
        ini = [i for i in walk_nodes(fn) if i['k'] in ('ctor', 'asg') or i.get('tk')]
        c = OnceClient(p, atom); e = Engine(p, c); res = e.run(fn); rep.engine(p, e)
        for s, v in res:
            for fl in flags:
                v0 = s.store.get(('f', fl, '#val'), s.store.get(fl)) if fl not in atom else ctorval(fn, fl)
                rep.ob('C20.once', 'the flag is initially false', v0 == ZERO or v0 == 0, 'starts with %s' % (v0,), fn)
    return n

def ctorval(fn, fl):
    for b in fn['blocks']:
        byi = {e.get('i'): e for e in b['e']}
        for e in b['e']:
            if e['k'] == 'ctor' and 'atomic' in (e.get('n') or ''):
                for a in e.get('args', []):
                    x = byi.get(a.get('r')) if 'r' in a else a
                    while x is not None and x['k'] in ('cast', 'mat', 'pass'):
                        y = x['e']; x = byi.get(y.get('r')) if 'r' in y else y
                    if x is not None and 'v' in x: return int(x['v'])
                if not e.get('args'): return 0
    return None

def val(x, s): return x[2] if x[0] == 'aload' else s.store.get(x[1], ('i', x[1]))
def lockedsince(ev, i, j):
    """is the mutex held without interruption between two events?"""
    return not any(x[0] == 'unlock' for x in ev[i:j]) and sum(1 if x[0] == 'lock' else -1 if x[0] == 'unlock' else 0 for x in ev[:i]) > 0

def guarded(rep, p):
    """functions handed to the guard are called through it only; each guard belongs to one function"""
    n = 0; g = {}
    ids = {f['id'] for f in p.funcs.values() if f.get('cls') == ONCE and not f.get('kind')}
    for fn in p.funcs.values():
        if not fn.get('blocks'): continue
        for b in fn['blocks']:
            byi = {e.get('i'): e for e in b['e']}
            for e in b['e']:
                if e['k'] == 'call' and e.get('fn') in ids:
                    def strip(a):
                        x = byi.get(a['r']) if 'r' in a else a
                        while x is not None and x['k'] in ('cast', 'un', 'mat', 'pass'): x = byi.get(x['e']['r']) if 'r' in x['e'] else x['e']
                        return x
                    t = [strip(a) for a in e['args']]
                    f = [x for x in t if x is not None and x['k'] == 'ref' and x.get('vk') == 'func']
                    o = strip(e['obj']) if e.get('obj') else None
                    n += 1
                    rep.ob('C20.guard', 'guarded function in %s is known' % fn['n'], len(f) == 1, 'cannot tell which function is guarded', fn, e.get('l'))
                    if f and o is not None: g.setdefault((f[0]['d'], f[0]['n']), set()).add((o.get('c'), o.get('f')))
    # the storage of a grid is created by whichever thread comes first: only inside of a guard
    for fn in p.funcs.values():
        if fn.get('cls') != 'grid::Grid' or fn.get('kind') or not fn.get('blocks'): continue
        creates = any((c.get('n') or '').endswith('::createContainer') for c in calls(fn))
        if creates:
            n += 1
            rep.ob('C20.guard', '%s runs once' % fn['n'], any(d == fn['id'] for d, nm in g), 'creates the storage of the grid but is not executed through a once guard', fn)
    for (d, nm), os_ in g.items():
        rep.ob('C20.guard', '%s is guarded by one guard' % nm, len(os_) == 1, 'guarded by %s' % sorted(map(str, os_)))
        for fn in p.funcs.values():
            for c in calls(fn):
                if c.get('fn') == d: rep.ob('C20.guard', '%s is called through its guard only' % nm, False, '%s calls it directly' % fn['n'], fn, c.get('l'))
        for o in os_:
            c = p.classes.get(o[0]) if o[0] else None
            fld = [x for x in (c or {}).get('fields', []) if x['n'] == o[1]]
            rep.ob('C20.guard', 'the guard of %s lives as long as the object it initialises' % nm, bool(fld) and o[0] == nm.rpartition('::')[0] and (c['T'][fld[0]['t']] == ONCE), 'the guard is %s' % (o,))
    return n

class TypeClient(LockClient):
    def __init__(self, p): LockClient.__init__(self, p)
    def write(self, eng, st, fr, node, loc, val):
        loc = eng.canon(st, loc)
        if loc[0] == 'f' and loc[1] == THISLOC: self.emit(st, ('w', loc, val, bool(self.own(st)), node.get('l') if isinstance(node, dict) else None))
    def read(self, eng, st, fr, node, loc):
        loc = eng.canon(st, loc)
        if loc[0] == 'f' and loc[1] == THISLOC and not loc[2].startswith('#'): self.emit(st, ('rd', loc, bool(self.own(st)), node.get('l') if isinstance(node, dict) else None))
    def own(self, st): return [l for l, _ in self.held(st) if l[0] == 'f']
    def on_lock(self, eng, st, fr, node, loc, how): self.emit(st, ('lock', loc))
    def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name.startswith('MPI_'):
            a = tuple(ld(x) for x in args)
            s2 = st.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            for s, ok in ((st, True), (s2, False)):
                self.emit(s, ('MPI', name, a, ok, bool(self.own(s))))
                for i, x in enumerate(a):
                    if x is not None and x[0] == '&' and name in ('MPI_Type_contiguous', 'MPI_Type_create_struct', 'MPI_Type_create_resized', 'MPI_Type_vector', 'MPI_Type_dup') and i == len(a) - 1:
                        eng.write(s, x[1], ('op', 'mpitype', C(name), C(eng.count(s, (fr.fid, node.get('i'))))))
                        self.emit(s, ('made', x[1], name))
            e = ('r', (fr.fid, node.get('i')), eng.count(s2, (fr.fid, node.get('i'))), name)
            eng.assume(s2, cmp('!=', e, ZERO), True)
            return [(st, ZERO), (s2, e)]
        if name.startswith('io::'):
            return [(st, S(name))]
        return None

def types(rep, p):
    """a lazily created MPI type is created under a lock, once, and its size is published last"""
    n = 0; eng = Engine(p, Client())
    for fn in [f for f in p.funcs.values() if (f.get('cls') or '').startswith('types::') and f['sn'] == 'check' and f.get('blocks')]:
        cl = fn.get('clsfull') or fn['cls']
        c = TypeClient(p); e = Engine(p, c, 100000); res = e.run(fn); rep.engine(p, e)
        evs = [c.evs(s) for s, v in res]
        if not any(x[0] == 'w' for ev in evs for x in ev): continue
        mpi = any(x[0] == 'MPI' for ev in evs for x in ev)
        short = fn['cls'].split('::')[-1]
        sizefn = [f for f in p.funcs.values() if f.get('clsfull') == fn.get('clsfull') and f['sn'] == 'size' and f.get('blocks')]
        pub = set()
        for f in sizefn:
            e2 = Engine(p, Client()); 
            for s, v in e2.run(f): pub |= {x[1] for x in subterms_i(v) if x[1][0] == 'f'}
        if not pub: raise AnalysisBroken('the size of %s is not kept in a field' % cl)
        for s, v in res:
            n += 1; tr = s.trace(); ev = c.evs(s)
            def ob(rule, what, ok, msg, line=None): rep.ob(rule, '%s: %s' % (short, what), ok, msg, fn, line, tr)
            err = eng.decide(s, truth(v))
            for x in ev:
                if x[0] == 'w': ob('C20.typelock', 'the description of the type is written with its lock held', x[3], '%s is written without the lock' % showloc(x[1]), x[4])
                if x[0] == 'rd' and x[1] in pub: ob('C20.typelock', 'the size is read with the lock held during the check', x[2], '%s is read without the lock' % showloc(x[1]), x[3])
                if x[0] == 'MPI' and x[1] != 'MPI_Type_free': ob('C20.typelock', 'the MPI type is created with the lock held', x[4], '%s without the lock' % x[1])
            ob('C20.typelock', 'the lock is released', not c.held(s), 'returns with the lock held')
            ob('C20.typelock', 'the lock is held without interruption from the check to the publication', sum(1 for x in ev if x[0] == 'lock' and x[1][0] == 'f') <= 1, 'the lock is released in between')
            wr = [i for i, x in enumerate(ev) if x[0] == 'w' and x[1] in pub]
            made = [i for i, x in enumerate(ev) if x[0] == 'made']
            first = s.store.get(('old',), None)
            for i in wr:
                old = ('i', ev[i][1])
                ob('C20.typeonce', 'the size is set once', eng.decide(s, cmp('==', old, ZERO)) is True, 'the size is changed although the type exists', ev[i][4])
                if mpi:
                    want = [x for j, x in enumerate(ev) if j < i and x[0] == 'MPI' and x[1] == 'MPI_Type_commit' and x[3]]
                    ob('C20.publish', 'the size is published after the MPI type has been committed', len(want) == 1, 'the size is set before the MPI type is usable', ev[i][4])
            if made:
                ob('C20.typeonce', 'the MPI type is created once', all(eng.decide(s, cmp('==', ('i', q), ZERO)) is True for q in pub), 'created although it exists already')
            if any(x[0] == 'MPI' and not x[3] for x in ev):
                ob('C20.publish', 'a failure publishes nothing and is reported', not wr and err is True, 'the check succeeds or the size is set although an MPI call failed')
            if err is False:
                ok = bool(wr) or all(eng.decide(s, cmp('==', ('i', q), ZERO)) is False for q in pub)
                ob('C20.publish', 'after a successful check the type is complete', ok, 'success although the type was never set up')
                if mpi and wr:
                    made_ = [x[1] for x in ev if x[0] == 'made']; com = [x for x in ev if x[0] == 'MPI' and x[1] == 'MPI_Type_commit']
                    ob('C20.publish', 'the type that is used is the one committed', bool(made_) and any(x[2] and x[2][0] is not None and Engine.deref(x[2][0]) == made_[-1] for x in com) and used(p, fn) == {made_[-1]}, 'committed %s' % [showloc(Engine.deref(x[2][0])) for x in com])
    return n

def used(p, fn):
    out = set()
    for f in p.funcs.values():
        if f.get('clsfull') == fn.get('clsfull') and f['sn'] == 'getMPIType' and f.get('blocks'):
            for s, v in Engine(p, Client()).run(f): out |= {v[1]} if v[0] == 'i' else set()
    return out

def subterms_i(t):
    if isinstance(t, tuple):
        if t and t[0] == 'i' and len(t) == 2 and isinstance(t[1], tuple): yield t
        for x in t:
            yield from subterms_i(x)

def run(rep):
    rep.rule('C20.once', 'the guarded function is executed only with the mutex held, after the flag was seen false under it; the flag is set under the same lock')
    rep.rule('C20.complete', 'the flag is set only after the function returned; nobody returns without having executed it or seen the flag')
    rep.rule('C20.visible', 'the flag is atomic with acquire/release ordering or only read under the mutex')
    rep.rule('C20.lock', 'the mutex is released on every path')
    rep.rule('C20.guard', 'each guarded function has one guard, in the object it initialises, and is not called directly')
    rep.rule('C20.typelock', 'element types are set up under their lock')
    rep.rule('C20.typeonce', 'an MPI type is created at most once')
    rep.rule('C20.publish', 'the size of a type is published only after its MPI type is committed')
    t = {}
    for cfg in (['mt', 'default'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        for k, v in (('paths through the guard', once(rep, p)), ('guarded initialisations', guarded(rep, p)), ('paths of type set-up', types(rep, p))): t[k] = t.get(k, 0) + v
    if not rep.viol: rep.floor('paths through the guard', t['paths through the guard'], 3)
    for k, m in (('guarded initialisations', 1), ('paths of type set-up', 8)): rep.floor(k, t[k], m)
