"""C11: balanced locks, no relock, acyclic lock order, trylock-only probing, working mutexes."""
from ..locks import *
from ..engine import calls, walk_nodes, loops_of

COMM = 'the communication thread'
WAITS = {'MPI_Recv', 'MPI_Send', 'MPI_Ssend', 'MPI_Barrier', 'MPI_Allreduce', 'MPI_Bcast', 'MPI_Probe', 'MPI_Iprobe', 'MPI_Wait', 'MPI_Test', 'MPI_Waitall', 'MPI_Sendrecv', 'MPI_Reduce', 'MPI_Allgather', 'MPI_Comm_dup', 'MPI_Win_create', 'MPI_Win_free', 'MPI_Comm_free', 'pthread_join'}
PM_LOCK = ('pthread_mutex_lock', 'pthread_spin_lock')
PM_TRY = ('pthread_mutex_trylock', 'pthread_spin_trylock')
PM_UNLOCK = ('pthread_mutex_unlock', 'pthread_spin_unlock')

def mutex_classes(p): return [c for c in LOCK_CLS + NOOP_CLS]

def lock_fields(p):
    """field name -> classes that own a field of that name"""
    d = {}
    for c in p.classes.values():
        for f in c.get('fields', []): d.setdefault(f['n'], set()).add(c['n'])
    return d

class Locks:
    """Bottom-up analysis of every function that locks something."""
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.fields = lock_fields(p)
        self.direct, self.callees, self.callers = {}, {}, {}
        self.scan()
        self.acq = {}          # id -> locks acquired blockingly (transitively)
        self.resid = {}        # id -> set of residual locks, empty if balanced
        self.edges = {}        # (a, b) -> (fn, line, trace)
        self.done = set(); self.active = set(); self.cases = {}; self.tried = set()
        self.handover = []     # (acquirer fn, lock name, [message tags])
        self.tag_unlock = []
        self.nlock = 0
    def is_impl(self, f):
        return f.get('cls') in LOCK_CLS + NOOP_CLS
    def candidates(self, node):
        i = node.get('fn')
        if i is None: return []
        out = [i]
        if node.get('virt'): out += sorted(self.p.overriders.get(i, ()))
        return out
    def scan(self):
        p = self.p; self.addr_taken = set()
        for f in p.funcs.values():
            if 'blocks' not in f or self.is_impl(f): continue
            cs = set(); d = False
            called = set()
            for n in walk_nodes(f):
                k = n['k']
                if k in ('call', 'ctor'):
                    nm = n.get('n') or ''
                    base, _, m = nm.rpartition('::')
                    if (base in LOCK_CLS and m in ('lock', 'unlock', 'try_lock')) or nm in PM_LOCK + PM_TRY + PM_UNLOCK or nm in WAITS: d = True
                    if k == 'ctor' and base.split('<')[0] in GUARDS: d = True
                    for i in self.candidates(n): cs.add(i); called.add(i)
                    if n.get('fn') is None and k == 'call': cs.add('indirect*' if (n.get('callee') or {}).get('op') in ('.*', '->*') or self.mp(f, n) else 'indirect')
                elif k == 'delete' and n.get('dtor'):
                    for i in self.candidates(n['dtor']): cs.add(i)
                elif k in ('adtor', 'tdtor', 'bdtor', 'mdtor') and n.get('fn'): cs.add(n['fn'])
                elif k == 'ref' and n.get('vk') == 'func':
                    self.addr_taken.add(n['d'])
            self.callees[f['id']] = cs
            if d: self.direct[f['id']] = True
        # functions that are only called are not address-taken: keep those referenced outside of a direct call
        for f in p.funcs.values():
            if f['id'] not in self.callees: continue
            for c in self.callees[f['id']]:
                for t in self.expand(c): self.callers.setdefault(t, set()).add(f['id'])
        rel = set(self.direct); work = list(rel)
        while work:
            x = work.pop()
            for c in self.callers.get(x, ()):
                if c not in rel: rel.add(c); work.append(c)
        self.relevant = rel
    def mp(self, f, n):
        def find(e):
            if not isinstance(e, dict): return False
            if e.get('op') in ('.*', '->*'): return True
            if 'r' in e and 'k' not in e:
                for b in f['blocks']:
                    for x in b['e']:
                        if x.get('i') == e['r']: return find(x)
                return False
            return any(find(v) for v in e.values() if isinstance(v, dict))
        return find(n.get('callee') or {})
    def expand(self, c):
        if c not in ('indirect', 'indirect*'): return [c]
        meth = c == 'indirect*'
        return [i for i in self.addr_taken if i in self.p.funcs and bool(self.p.funcs[i].get('cls') and not self.p.funcs[i].get('static')) == meth and 'operator' not in self.p.funcs[i]['sn']]
    def lname(self, loc, fr):
        k = loc[0]
        if k == 'f':
            cs = self.fields.get(loc[2], set())
            f = fr
            if len(cs) == 1: return '%s::%s' % (next(iter(cs)), loc[2])
            while f is not None:
                if f.fn.get('cls') in cs: return '%s::%s' % (f.fn['cls'], loc[2])
                f = f.outer
            return '?::' + loc[2]
        if k == 'e': return self.lname(loc[1], fr) + '[]'
        if k == 'd':
            t = loc[1]
            if t[0] in ('i', '&'): return self.lname(t[1], fr)
            return show(t)
        if k == 'g': return loc[1]
        return lockname(loc)
    def need(self, i):
        """analyse callee first; recursion is cut"""
        if i in self.done or i in self.active or i not in self.relevant: return
        f = self.p.funcs.get(i)
        if f is None or 'blocks' not in f: return
        self.analyse(f)
    def summary_of(self, i):
        a = set()
        for t in self.expand(i):
            self.need(t)
            a |= self.acq.get(t, set())
        return a
    def analyse(self, f):
        self.active.add(f['id'])
        for c in list(self.callees[f['id']]):
            for t in self.expand(c): self.need(t)
        c = Cl(self, f)
        e = Engine(self.p, c, 400000)
        res = e.run(f)
        self.rep.engine(self.p, e)
        self.nlock += c.lockcalls
        self.outcomes(f, e, res)
        resid = set()
        for s, v in res:
            for l, h in c.held(s): resid.add(('held', c.names.get(l, lockname(l))))
        for k in c.unheld: resid.add(('released', k))
        self.acq[f['id']] = c.acq
        for k, v in c.edges2.items(): self.edges.setdefault(k, v)
        self.resid[f['id']] = resid
        self.active.discard(f['id']); self.done.add(f['id'])
        self.judge(f, c, res, resid)
    def outcomes(self, f, e, res):
        """what the callers can tell from the outcome"""
        cs = set()
        for s, v in res:
            refs = []
            for k, p in enumerate(f['params']):
                if p.get('isref'):
                    x = s.store.get(e.canon(s, e.deref(('i', ('p', p['n'] or 'arg%d' % k)))))
                    if x is not None and is_c(x): refs.append((k, x))
            cs.add((v if v is not None and is_c(v) else None, tuple(refs)))
        if len(cs) <= 8: self.cases[f['id']] = cs
    def plain(self, f):
        """outcomes of a function without any lock"""
        if f['id'] in self.cases or f['id'] in self.tried: return
        self.tried.add(f['id'])
        if not any(p.get('isref') for p in f['params']) or f['n'].startswith(('std::', 'utils::')): return
        c = Summ(inline=lambda fn, name: False)
        e = Engine(self.p, c, 5000)
        try: self.outcomes(f, e, e.run(f))
        except AnalysisBroken: pass
    def judge(self, f, c, res, resid):
        rep = self.rep
        who = f['n']
        rel = [x for x in c.problems if x[0] == 'relock']
        rep.ob('C11.relock', who, not rel, rel[0][1] if rel else '', rel[0][2] if rel else f, rel[0][3] if rel else None, rel[0][4] if rel else None)
        if not resid:
            rep.ob('C11.balanced', who, True); return
        left = [(h, n) for h, n in resid]
        cal = [self.p.funcs[x] for x in self.callers.get(f['id'], ()) if x in self.p.funcs]
        bad = []
        for kind, n in sorted(left):
            if c.thread_fn and kind == 'released':
                self.tag_unlock.append((f, n, c)); continue
            ho = c.handed.get(n)
            if kind == 'held' and ho is not None and all(c.handed_ok(s, n) for s, v in res):
                self.handover.append((f, n, ho)); continue
            owner = n.split('[')[0].rsplit('::', 1)[0]
            if cal and (owner == f.get('cls') or f['id'] in self.direct and '::' in n and not owner.startswith('?') and (owner not in self.p.classes_by_name or n in [g['n'] for g in self.p.globals.values()]) and self.op_in(f, n)
                        or all(x.get('cls') == f.get('cls') for x in cal)): continue
            bad.append((kind, n))
        if self.handover and any(x[0] is f for x in self.handover) and not bad:
            self.resid[f['id']] = set()      # balanced from the point of view of its callers
        st = next((s for s, v in res if c.held(s)), None)
        if bad:
            self.resid[f['id']] = set()      # reported here, do not report it again at its callers
        rep.ob('C11.balanced', who, not bad, '; '.join(('leaves %s locked on some path' if k == 'held' else 'releases %s which it does not hold') % n for k, n in bad), f,
               trace=(c.unheld.get(bad[0][1]) or (None, None))[1] if bad and bad[0][0] == 'released' else st.trace() if st is not None else None)
    def op_in(self, f, n):
        for x in walk_nodes(f):
            if x['k'] == 'call' and (x.get('n') or '').rpartition('::')[2] in ('lock', 'unlock', 'try_lock'): return True
        return False

def undecided(eng, st, fr, node):
    """the choice between the outcomes of a call is not decided, so neither are the loops around the call"""
    for h, body in loops_of(fr.fn).items():
        if node.get('i') in eng._loop_elems(fr.fn, body): st.sym = st.sym | {(fr.fid, h)}

class Cl(LockClient):
    def __init__(self, A, root):
        LockClient.__init__(self, A.p)
        self.A = A; self.acq = set(); self.edges2 = {}; self.unheld = {}; self.names = {}; self.handed = {}
        self.thread_fn = root['id'] in A.threads if hasattr(A, 'threads') else False
        self.root = root
    def inline(self, eng, fn, name):
        i = fn['id']
        if i in self.A.relevant: return bool(self.A.resid.get(i))
        return len(fn.get('blocks', ())) <= 3
    def leave(self, eng, st, fr, ret):
        # only locals decide which locks a path holds; forget what the heap contains
        if fr.depth: self.forget(st)
    def opaque(self, eng, st, fr, node, name, obj, args):
        if not name.startswith(('std::', 'MPI_', 'pthread_')): self.forget(st)
    def forget(self, st):
        gone = set()
        for k in list(st.store):
            if isinstance(k, tuple) and k[0] in ('hv', 'al', 'zero'): continue
            if locroot(k)[0] in ('v', 't') or k[0] == 'f' and k[2] in ('#lock', '#own'): continue
            v = st.store[k]
            if v[0] == 'obj': continue
            s = ('phi', 'heap', 0, k)
            st.store[k] = s; gone.add(s)
        if gone:
            for c in [c for c in st.conds if syms(c) & gone]: del st.conds[c]
    def note(self, loc, fr):
        n = self.A.lname(loc, fr); self.names[loc] = n
        return n
    def acquire(self, eng, st, fr, node, loc, how='x'):
        loc = eng.canon(st, loc)
        n = self.note(loc, fr)
        self.lockcalls += 1
        for l, h in self.held(st):
            if how == 'x':
                if l == loc:
                    self.problem('relock', 'locks %s which this path already holds' % n, fr, node, st)
                    return
                else: self.edges2.setdefault((self.names.get(l, lockname(l)), n), (fr.fn, node.get('l'), st.trace()))
            elif l == loc: return
        if how == 'x': self.acq.add(n)
        self.setheld(st, self.held(st) + ((loc, how),))
    def release(self, eng, st, fr, node, loc):
        loc = eng.canon(st, loc)
        self.lockcalls += 1
        h = list(self.held(st))
        for x in h:
            if x[0] == loc: h.remove(x); break
        else:
            n = self.note(loc, fr)
            self.unheld.setdefault(n, (node.get('l'), st.trace()))
            if self.thread_fn: self.emit(st, ('unlock', n))
        self.setheld(st, h)
    def waits(self, st, fr, node, what):
        self.acq.add(COMM)
        for l, h in self.held(st): self.edges2.setdefault((self.names.get(l, lockname(l)), COMM), (fr.fn, node.get('l'), st.trace()))
    def handed_ok(self, s, n): return True
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name in PM_LOCK or name in PM_TRY:
            l = Engine.deref(ld(args[0])); s2 = st.copy()
            site = (fr.fid, node.get('i')); k = eng.count(st, site)
            s2.path = (s2.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            r = ('r', site, k, name); eng.assume(s2, cmp('!=', r, ZERO), True)
            self.acquire(eng, st, fr, node, l, 'x' if name in PM_LOCK else 't')
            if name == 'pthread_spin_lock': return [(st, ZERO)]
            return [(st, ZERO), (s2, r)]
        if name in PM_UNLOCK:
            self.release(eng, st, fr, node, Engine.deref(ld(args[0]))); return [(st, ZERO)]
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            # releases and re-acquires its own mutex only
            own = Engine.deref(ld(args[1]))
            for l, h in self.held(st):
                if l != eng.canon(st, own): self.edges2.setdefault((self.names.get(l, lockname(l)), 'other threads of a barrier'), (fr.fn, node.get('l'), st.trace()))
            return None
        if name in WAITS:
            if name in ('MPI_Ssend', 'MPI_Send', 'MPI_Issend', 'MPI_Isend'):
                t = ld(args[4])
                for l, h in self.held(st):
                    if is_c(t): self.handed.setdefault(self.names.get(l), t[1])
            self.waits(st, fr, node, name)
            if self.thread_fn and name == 'MPI_Recv':
                st.ts = (self.held(st), (('recv', ld(args[6])),))
            return None
        # callees that are represented by their summary
        i = node.get('fn')
        cands = []
        if i is not None: cands = self.A.candidates(node)
        elif node['k'] == 'call': cands = ['indirect*' if self.A.mp(fr.fn, node) else 'indirect']
        for c in cands:
            for t in self.A.expand(c):
                f = self.p.funcs.get(t)
                if f is None or self.A.is_impl(f): continue
                if t not in self.A.relevant:
                    if len(cands) == 1 and i is not None and 'blocks' in f and not self.inline(eng, f, f['n']):
                        self.A.plain(f)
                        if t in self.A.cases: return self.apply(eng, st, fr, node, name, obj, args, f)
                    continue
                if i is not None and len(cands) == 1 and self.inline(eng, f, f['n']): continue
                self.summ(st, fr, node, t)
                if len(cands) == 1 and t in self.A.cases: return self.apply(eng, st, fr, node, name, obj, args, f)
        return None
    def apply(self, eng, st, fr, node, name, obj, args, f):
        """one successor per outcome (return value, reference parameters) of a callee"""
        v = eng.do_opaque(st, fr, node, name, obj, [x if x is None or x[0] in ('L', 'obj') else x for x in args])
        out = []
        undecided(eng, st, fr, node)
        for ret, refs in sorted(self.A.cases[f['id']], key=repr):
            s2 = st.copy()
            for k, x in refs:
                if k < len(args) and args[k] is not None and args[k][0] == 'L': s2.store[eng.canon(s2, args[k][1])] = x
            out.append((s2, ret if ret is not None else v))
        return out
    def summ(self, st, fr, node, t):
        for a in self.A.summary_of(t):
            self.acq.add(a)
            for l, h in self.held(st):
                self.edges2.setdefault((self.names.get(l, lockname(l)), a), (fr.fn, node.get('l'), st.trace()))
    def dtor(self, eng, st, fr, e, name, loc):
        r = LockClient.dtor(self, eng, st, fr, e, name, loc)
        if r is not None: return r
        t = e.get('fn')
        if t in self.A.relevant and not self.inline(eng, self.p.funcs[t], ''): self.summ(st, fr, e, t)
        return None
    def call(self, eng, st, fr, node, name, obj, args):
        if name.startswith('operator delete') and node.get('dtor'):
            for t in self.A.candidates(node['dtor']):
                if t in self.A.relevant: self.summ(st, fr, node, t)
            return [(st, None)]
        if obj is not None and obj[0] == 'd' and not is_c(obj[1]): eng.assume(st, cmp('!=', obj[1], ZERO), True)
        return LockClient.call(self, eng, st, fr, node, name, obj, args)

def thread_functions(p):
    """functions that are started as a thread"""
    out = set()
    for f in p.funcs.values():
        for n in calls(f):
            if (n.get('n') or '') == 'pthread_create' or (n.get('n') or '').startswith('std::thread::thread'):
                for x in walk_nodes({'blocks': [{'e': [n]}]}):
                    if x['k'] == 'ref' and x.get('vk') == 'func': out.add(x['d'])
                def refs(e):
                    if isinstance(e, dict):
                        if 'r' in e and 'k' not in e:
                            for b in f['blocks']:
                                for y in b['e']:
                                    if y.get('i') == e['r']: refs(y)
                        if e.get('k') == 'ref' and e.get('vk') == 'func': out.add(e['d'])
                        for v in e.values():
                            if isinstance(v, (dict, list)): refs(v)
                    elif isinstance(e, list):
                        for v in e: refs(v)
                refs(n.get('args', []))
    return out & set(p.funcs)

def cycle(edges):
    g = {}
    for a, b in edges: g.setdefault(a, set()).add(b)
    color, stack = {}, []
    def dfs(x):
        color[x] = 1; stack.append(x)
        for y in sorted(g.get(x, ())):
            if color.get(y) == 1: return stack[stack.index(y):] + [y]
            if y not in color:
                r = dfs(y)
                if r: return r
        stack.pop(); color[x] = 2
        return None
    for x in sorted(g):
        if x not in color:
            r = dfs(x)
            if r: return r
    return None

def mutex_impl(rep, p):
    """the mutex wrapper forwards every operation to its own lock object"""
    n = 0
    for cls in sorted(set(f['cls'] for f in p.funcs.values() if f.get('cls') in LOCK_CLS)):
        lockobj = set()
        for op, prims in (('lock', PM_LOCK), ('unlock', PM_UNLOCK), ('try_lock', PM_TRY)):
            f = p.fn(cls + '::' + op)
            c = Prim(p)
            res, e = summary(p, f, client=c, rep=rep)
            for s, v in res:
                evs = s.ts or ()
                ok = len(evs) == 1 and evs[0][0] in prims
                if ok: lockobj.add(evs[0][1])
                if op == 'try_lock':
                    t = truth(v) if v is not None else None
                    r = evs[0][2] if evs else None
                    # true exactly if the primitive returned zero
                    good = ok and (t == cmp('==', r, ZERO) or e.decide(s, cmp('==', r, ZERO)) is not None and is_c(t) and bool(t[1]) == e.decide(s, cmp('==', r, ZERO)))
                    rep.ob('C11.mutex', '%s::%s reports whether it locked' % (cls, op), good, 'returns %s after %s' % (show(v) if v else v, [x[0] for x in evs]), f)
                else: rep.ob('C11.mutex', '%s::%s performs exactly one lock operation' % (cls, op), ok, 'performs %s' % [x[0] for x in evs], f)
                n += 1
        rep.ob('C11.mutex', cls + ' uses one lock object', len(lockobj) == 1, 'the operations use different lock objects: %s' % sorted(map(repr, lockobj))[:4], p.fn(cls + '::lock'))
    for cls in sorted(set(f['cls'] for f in p.funcs.values() if f.get('cls') in NOOP_CLS)):
        f = p.fn(cls + '::try_lock', required=False)
        if f is not None:
            res, e = summary(p, f, rep=rep)
            rep.ob('C11.mutex', cls + '::try_lock succeeds', all(v is not None and truth(v) == ONE for s, v in res), 'may report failure', f)
    return n

class Prim(Summ):
    def __init__(self, p): Summ.__init__(self); self.p = p
    def call(self, eng, st, fr, node, name, obj, args):
        if name in PM_LOCK + PM_TRY + PM_UNLOCK:
            site = (fr.fid, node.get('i')); k = eng.count(st, site)
            r = ('r', site, k, name)
            st.ts = (st.ts or ()) + ((name, Engine.deref(eng.load(st, args[0])), r),)
            return [(st, r)]
        return None
    def keep_sym(self, s): return True

def handovers(rep, p, A):
    """a lock released by the communication thread: exactly for the message that its acquirer sent"""
    for f, n, c in A.tag_unlock:
        src = [h for h in A.handover if h[1] == n]
        rep.ob('C11.handover', '%s releases %s' % (f['n'], n), len(src) >= 1, 'releases a lock that no other thread hands over to it', f)
    for f, n, tag in A.handover:
        rel = [x for x in A.tag_unlock if x[1] == n]
        rep.ob('C11.handover', '%s hands %s over' % (f['n'], n), len(rel) == 1, 'leaves %s locked, but no thread function releases it' % n, f)
        if not rel: continue
        h = rel[0][0]
        c = Served(A, h, n, tag)
        e = Engine(p, c, 400000); res = e.run(h); rep.engine(p, e)
        rep.ob('C11.handover', '%s releases %s exactly once for message %s and for no other' % (h['n'], n, tag), not c.bad and c.good > 0, c.bad[0] if c.bad else 'the message is never answered', h)

class Served(LockClient):
    """ts = ((), (('recv', status), ('unlock', n)...)) of the current message"""
    def __init__(self, A, h, n, tag):
        LockClient.__init__(self, A.p); self.A, self.n, self.tag = A, n, tag; self.bad = []; self.good = 0
    def inline(self, eng, fn, name): return fn['id'] in self.A.resid and bool(self.A.resid[fn['id']]) or len(fn.get('blocks', ())) <= 3
    def acquire(self, *a, **k): pass
    def release(self, eng, st, fr, node, loc):
        if self.A.lname(eng.canon(st, loc), fr) == self.n: self.emit(st, ('unlock',))
    def check(self, eng, st):
        ev = self.evs(st)
        if not ev or ev[0][0] != 'recv': return
        d = ev[0][1]
        k = sum(1 for x in ev if x[0] == 'unlock')
        if d:
            if k == 1: self.good += 1
            else: self.bad.append('the lock is released %d times for message %s' % (k, self.tag))
        elif k: self.bad.append('the lock is released for another message than %s' % self.tag)
    def special(self, eng, st, fr, node, name, obj, args):
        if name == 'MPI_Recv':
            self.check(eng, st)
            a = eng.load(st, args[6])
            v = eng.do_opaque(st, fr, node, name, obj, [eng.load(st, x) for x in args])
            t = cmp('==', eng.read(st, ('f', Engine.deref(a), 'MPI_TAG')), C(self.tag))
            undecided(eng, st, fr, node)
            s2 = st.copy()
            eng.assume(st, t, True); st.ts = ((), (('recv', True),))
            eng.assume(s2, t, False); s2.ts = ((), (('recv', False),))
            return [(st, v), (s2, v)]
        return None
    def leave(self, eng, st, fr, ret):
        if fr.depth == 0: self.check(eng, st); st.ts = ((), ())
    def keep_sym(self, s): return True

def run(rep):
    rep.rule('C11.balanced', 'on every path each function releases what it locks; a function that returns with a lock held (or releases one for its caller) is analysed inside its callers')
    rep.rule('C11.relock', 'no path locks a mutex it already holds')
    rep.rule('C11.order', 'the graph "is waited for while holding" over all mutexes and the communication thread is acyclic (try-locks are not waited for)')
    rep.rule('C11.mutex', 'the mutex classes forward to exactly one lock object and report try_lock truthfully')
    rep.rule('C11.handover', 'a lock released by the communication thread is released once for the message its owner sent')
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        A = Locks(p, rep); A.threads = thread_functions(p)
        for f in sorted((p.funcs[i] for i in A.relevant), key=lambda f: (f.get('full', ''), f['id'])):
            if 'blocks' in f and f['id'] not in A.done: A.analyse(f)
        handovers(rep, p, A)
        # what the communication thread itself waits for
        for t in A.threads:
            for a in A.acq.get(t, ()):
                if a != COMM: A.edges.setdefault((COMM, a), (p.funcs[t], None, None))
        E = {k: v for k, v in A.edges.items() if k != (COMM, COMM)}
        cy = cycle(E)
        if cy:
            k = (cy[0], cy[1]); fn, line, tr = E[k]
            msg = 'cycle: ' + ' -> '.join(cy) + '; ' + '; '.join('%s is waited for with %s held in %s' % (b, a, E[(a, b)][0]['n']) for a, b in zip(cy, cy[1:]))
            rep.ob('C11.order', 'lock order is acyclic', False, msg, fn, line, tr)
        else: rep.ob('C11.order', 'lock order is acyclic [%s]: %d edges' % (cfg, len(E)), True)
        rep.notes.append('%s lock order: %s' % (cfg, sorted('%s -> %s' % k for k in E)))
        rep.floor('functions that lock [%s]' % cfg, len([1 for i in A.direct if i in A.done]), 20)
        rep.floor('lock operations [%s]' % cfg, A.nlock, 30)
        mutex_impl(rep, p)
