"""C27: thread registration. The registration protocol is executed symbolically once per path; the barrier operations of
threads::Sync (whose own correctness is C19) are used by contract: between startBarrier and waitBarrier/endBarrier the mutex is held,
waiting() is the number of threads that entered waitBarrier before, and behind waitBarrier every thread has been there."""
from .c22 import *
from .c09 import subterms
from ..locks import *

NU = 'numa::Numa'
SHARED = ('m_domains', 'm_masterThreads', 'm_error', 'm_initialized')
W = ('op', 'waiting')
M32 = (1 << 32) - 1

class RegClient(Client):
    """ts = (held, arrived, events)"""
    def __init__(self, p): self.p = p
    def ev(self, st, *e):
        h, a, l = st.ts or (False, False, ())
        if e[0] in ('access', 'read', 'write') and e in l[-6:]: return      # a loop repeats itself
        st.ts = (h, a, l + (e,))
    def lock(self, st, h, a=None): h0, a0, l = st.ts or (False, False, ()); st.ts = (h, a0 if a is None else a, l)
    def inline(self, eng, fn, name): return name.startswith(NU) or fn.get('cls') is None
    def keep_sym(self, s): return True
    def ts_syms(self, ts): return set()
    def call(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        if name.startswith('threads::Sync::') and node.get('k') != 'ctor' and '~' not in name:
            sn = name.split('::')[-1]
            held, arr, _ = st.ts or (False, False, ())
            self.ev(st, 'sync', sn, held, eng.canon(st, obj) if obj is not None else None, tuple(ld(a) for a in args))
            ok, bad = st, st.copy()
            if sn == 'startBarrier': self.lock(ok, True, False); self.lock(bad, False)
            elif sn == 'waitBarrier':
                self.lock(ok, True, True); self.lock(bad, False)
                # the other threads have been here since
                own = st.store.get(F('m_error')); own = own if own is not None else S_ERR
                new = ('r', (fr.fid, node.get('i')), 0, 'm_error')
                ok.store[F('m_error')] = new
                if any(e[0] == 'error' for e in (st.ts or (0, 0, ()))[2]): eng.assume(ok, cmp('!=', new, ZERO), True)
                ok.store[F('m_initialized')] = ('op', 'initialized', C(1 if st.store.get(F('m_initialized')) == C(1) else 0))
            elif sn == 'endBarrier': self.lock(ok, False); self.lock(bad, False)
            elif sn == 'waiting': return [(st, W)]
            elif sn in ('barrier', 'broadcast'): pass
            else: raise AnalysisBroken('unknown operation threads::Sync::%s' % sn)
            return [(ok, C(1)), (bad, ZERO)]
        if name == 'std::_Bit_reference::operator=':
            v = ld(args[0])
            if v is None or v[0] == 'obj': v = eng.read(st, eng.canon(st, args[0][1]))
            loc = eng.canon(st, obj); self.write(eng, st, fr, node, loc, v); eng.write(st, loc, v); return [(st, obj)]
        if name == 'std::_Bit_reference::operator bool': return [(st, eng.read(st, eng.canon(st, obj)))]
        if name.startswith(('pthread_', 'sched_', 'numa_', 'syscall', 'getcpu')):
            k = name
            r = ('r', (fr.fid, node.get('i')), eng.count(st, (fr.fid, node.get('i'))), name)
            self.ev(st, 'sys', name, tuple(ld(a) for a in args), r, (st.ts or (False, 0, ()))[0])
            return [(st, r)]
        if name.startswith('std::') and obj is not None:
            f = self.field(eng.canon(st, obj))
            if f: self.ev(st, 'access', f, (st.ts or (False, 0, ()))[0], name.split('::')[-1])
    def field(self, l):
        while isinstance(l, tuple) and l and l[0] in ('f', 'e'):
            if l[0] == 'f' and l[1] == THISLOC: return l[2] if l[2] in SHARED else None
            l = l[1]
        return None
    def write(self, eng, st, fr, node, loc, val):
        f = self.field(loc)
        if f: self.ev(st, 'write', f, (st.ts or (False, 0, ()))[0], val, (st.ts or (0, False, ()))[1], loc)
        if f == 'm_error': self.ev(st, 'error', val)
    def read(self, eng, st, fr, node, loc):
        f = self.field(loc)
        if f: self.ev(st, 'read', f, (st.ts or (False, 0, ()))[0])

S_ERR = ('i', F('m_error'))

def sysname(t, names): return t[0] == 'r' and t[3] in names

def registration(rep, p):
    fn = p.fn(NU + '::registerThread')
    nonuma = 'ASAGI_NONUMA' in p.defs
    c = RegClient(p); e = Engine(p, c, 20000)
    mt, det = S(fn['params'][0]['n']), S(fn['params'][1]['n'])
    st = State(); INIT, ERR = ('i', F('m_initialized')), S_ERR
    res = e.run(fn, st=st); rep.engine(p, e)
    n = 0
    key = getters(rep, p)
    kinds = set()
    for s, v in res:
        n += 1; tr = s.trace()
        def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, None, tr)
        held, arr, ev = s.ts or (False, False, ())
        ob('C27.lock', 'the barrier is left before returning', not held, 'returns with the registration locked')
        for x in ev:
            if x[0] in ('write', 'access', 'read'):
                f, h = x[1], x[2]
                # a second registration only reads
                again = e.decide(s, INIT) is True
                rd = x[0] == 'read' or x[0] == 'access' and x[3] not in ('resize', 'push_back', 'insert', 'clear', 'erase', 'assign', 'reserve')
                first = x == next(y for y in ev if y[0] in ('write', 'access', 'read'))
                ob('C27.lock', 'the tables are used with the barrier locked', h or (again and rd) or f == 'm_initialized' and rd, '%s is %s without the lock' % (f, 'read' if x[0] == 'read' else 'changed'))
            if x[0] == 'error': ob('C27.error', 'an error is never forgotten', e.decide(s, cmp('!=', x[1], ZERO)) is True or is_num(x[1]) and x[1][1], 'm_error is overwritten with %s' % show(x[1]))
        if e.decide(s, INIT) is True:
            kinds.add('again')
            er = e.decide(s, cmp('!=', ERR, ZERO))
            if er is True or er is None and v != ZERO:
                ob('C27.error', 'a failed registration stays failed', v == ERR or is_num(v) and v[1] != 0, 'returns %s' % show(v))
            else:
                ob('C27.error', 'a failed registration stays failed', er is False or v == ERR, 'the error is not looked at')
                m = s.store.get(('d', mt))
                ok = m is not None and m[0] == 'i' and m[1][0] == 'e' and m[1][1] == F('m_masterThreads') and key is not None and is_id(m[1][2], key[0])
                ob('C27.master', 'a thread that registers again learns the same role', ok, 'masterThread becomes %s' % (show(m) if m is not None else 'unchanged'))
            ob('C27.error', 'registering again changes nothing', not any(x[0] == 'write' for x in ev), 'shared state is written')
            continue
        sy = [x for x in ev if x[0] == 'sync']
        names = [x[1] for x in sy if x[1] != 'waiting']
        ob('C27.joint', 'every thread enters the barrier', names[:1] == ['startBarrier'], 'the first operation is %s' % names[:1])
        if names == ['startBarrier']:
            ob('C27.error', 'a failing barrier is reported', is_num(v) and v[1] != 0, 'returns %s' % show(v))
            ob('C27.joint', 'nothing is left out', not held and not any(x[0] == 'write' for x in ev), 'the thread leaves without entering the barrier'); kinds.add('nostart'); continue
        ob('C27.joint', 'every thread waits in the barrier, also after an error', names[:2] == ['startBarrier', 'waitBarrier'] and len(names) <= 3, 'operations: %s' % names)
        for x in sy:
            if x[1] == 'waiting': ob('C27.number', 'the thread number is taken with the barrier locked', x[2], 'waiting() is called without the lock')
            ob('C27.joint', 'all threads meet in the same barrier', x[3] == F('m_syncThreads'), 'uses %s' % (showloc(x[3]) if x[3] else x[3]))
            if x[1] == 'waitBarrier': ob('C27.joint', 'the barrier counts all threads', x[4][:1] == (('i', F('m_totalThreads')),), 'waits for %s' % [show(y) for y in x[4]])
        iw = next((k for k, x in enumerate(ev) if x[:2] == ('sync', 'waitBarrier')), len(ev))
        before = ev[:iw]
        # which domain
        sysr = {x[1]: x for x in before if x[0] == 'sys'}
        cpu = next((x for x in before if x[0] == 'sys' and x[1] == 'sched_getcpu'), None)
        node_ = next((x for x in before if x[0] == 'sys' and x[1] == 'numa_node_of_cpu'), None)
        bad_cpu = cpu is not None and e.decide(s, cmp('<', cpu[3], ZERO)) is True
        bad_node = node_ is not None and e.decide(s, cmp('<', node_[3], ZERO)) is True
        setk = [x for x in before if x[0] == 'sys' and x[1] == 'pthread_setspecific']
        setbad = [x for x in setk if e.decide(s, cmp('==', x[3], ZERO)) is False]
        unset = [x for x in setk if e.decide(s, cmp('==', x[3], ZERO)) is None]
        keyerr = e.decide(s, ('i', F('m_keyError'))) is True
        failed = bad_cpu or bad_node or bool(setbad) or keyerr or not setk
        stored_err = any(x[0] == 'error' for x in before)
        detect = e.decide(s, det)
        if cpu is not None and not nonuma: ob('C27.error', 'an unknown processor is reported', bad_cpu or e.decide(s, cmp('<', cpu[3], ZERO)) is False, 'sched_getcpu() is not checked')
        if node_ is not None: ob('C27.error', 'an unknown NUMA node is reported', bad_node or e.decide(s, cmp('<', node_[3], ZERO)) is False, 'numa_node_of_cpu() is not checked')
        ob('C27.error', 'storing the numbers is checked', not unset, 'the result of pthread_setspecific() is ignored')
        ob('C27.error', 'an invalid key is never used', not setk or e.decide(s, ('i', F('m_keyError'))) is False, 'the key is used without a check')
        if failed:
            kinds.add('failed')
            ob('C27.error', 'the error of one thread is seen by all', stored_err, 'm_error is not set before the others continue')
        elif stored_err: ob('C27.error', 'no error without a reason', False, 'm_error is set although everything worked')
        # the domain table
        ents = [(k, x) for k, x in s.store.items() if k[0] == 'f' and k[1][0] == 'e' and k[1][1] == ('f', F('m_domains'), '#map') and k[2] == 'second']
        absent = [a for a, pol in s.conds.items() if pol and a[0] == 'op' and any(t[0] == 'op' and t[1] == 'in' and t[2] == ('&', F('m_domains')) for t in subterms(a))]
        present = [a for a, pol in s.conds.items() if not pol and any(t[0] == 'op' and t[1] == 'in' and t[2] == ('&', F('m_domains')) for t in subterms(a))]
        ob('C27.domain', 'the domain is looked up', len(absent) + len(present) == 1, 'a thread is registered without looking for its domain')
        if len(absent) + len(present) != 1: continue
        inn = next(t for t in subterms((absent + present)[0]) if t[0] == 'op' and t[1] == 'in')
        k = inn[3]
        if detect is False: want = lambda t: t == ZERO
        elif 'DEBUG_NUMA' in p.defs: want = lambda t: t == W
        elif nonuma: want = lambda t: t == ZERO
        else: want = lambda t: node_ is not None and t == node_[3] and node_[2] == (cpu[3] if cpu else None,)
        if not (bad_cpu or bad_node): ob('C27.domain', 'the domain is the NUMA node of the processor the thread runs on' if detect is not False and not nonuma else 'without detection there is one domain', want(k), 'the domain is %s' % show(k))
        new = bool(absent)
        if new:
            ob('C27.domain', 'a new domain gets the next number', len(ents) == 1 and ents[0][0][1][2] == k and ents[0][1] == ('i', ('f', F('m_domains'), '#size')), 'number %s' % [show(x) for _, x in ents])
            dom = ents[0][1] if ents else None
        else:
            ob('C27.domain', 'the number of a known domain is kept', not any(x[0] == 'write' and x[1] == 'm_domains' for x in ev), 'm_domains is changed')
            dom = ('i', ('f', ('e', ('f', F('m_domains'), '#map'), k), 'second'))
        # the role
        m = s.store.get(('d', mt))
        ob('C27.master', 'the first thread of a domain is its master', m is not None and truthy(e, s, m) is new, 'masterThread is %s for a %s domain' % (show(m) if m is not None else 'not set', 'new' if new else 'known'))
        row = s.store.get(('e', F('m_masterThreads'), W))
        rows = [(kk, x) for kk, x in s.store.items() if kk[0] == 'e' and kk[1] == F('m_masterThreads')]
        if new: ob('C27.master', 'the role is remembered under the thread number', row is not None and truthy(e, s, row) is True, 'm_masterThreads[%s] = %s' % (show(W), show(row) if row is not None else 'unchanged'))
        else: ob('C27.master', 'the role is remembered under the thread number', row is None or truthy(e, s, row) is False, 'a second master for one domain')
        ob('C27.master', 'the roles of other threads are kept', all(kk[2] == W for kk, _ in rows), 'm_masterThreads[%s] is changed' % [show(kk[2]) for kk, _ in rows if kk[2] != W])
        sz = e.read(s, ('f', F('m_masterThreads'), '#size'))
        big = sz == ('poly', 1, (((W,), 1),)) or e.decide(s, cmp('<', W, ('i', ('f', F('m_masterThreads'), '#size')))) is True and sz == ('i', ('f', F('m_masterThreads'), '#size'))
        if not big and sz[0] == 'phi': big = e.decide(s, cmp('<', W, sz)) is True       # grown in a loop
        ob('C27.master', 'there is room for the role of every thread', big, 'size %s' % show(sz))
        for x in ev:
            if x[0] == 'access' and x[1] == 'm_masterThreads' and x[3] in ('clear', 'erase', 'assign', 'swap'): ob('C27.master', 'the roles of other threads are kept', False, 'm_masterThreads.%s' % x[3])
            if x[0] == 'access' and x[1] == 'm_domains' and x[3] in ('clear', 'erase', 'swap'): ob('C27.domain', 'domains are never dropped', False, 'm_domains.%s' % x[3])
        # the numbers
        for x in setk:
            ob('C27.number', 'the numbers are kept in the key of this object', x[2][0] == ('i', F('m_ptkey')), 'key %s' % show(x[2][0]))
            if key is None or dom is None: continue
            okn, why = roundtrip(x[2][1], key, W, dom)
            ob('C27.number', 'later queries return the thread and domain number assigned here', okn, why)
        # who is last
        ini = [x for x in ev if x[0] == 'write' and x[1] == 'm_initialized']
        for x in ini:
            if x[4]: continue
            bad = [(T, w) for T in range(1, 6) for w in range(T) if sat(s, T, w) and w != T - 1 and val_of(x[3], T, w)]
            ob('C27.last', 'nobody is told that registration is complete before all threads are there', not bad, 'm_initialized is set by thread %d of %d' % (bad[0][1] + 1, bad[0][0]) if bad else '')
        if names == ['startBarrier', 'waitBarrier', 'endBarrier']:
            miss = [(T, w) for T in range(1, 6) for w in range(T) if sat(s, T, w) and w == T - 1 and not any(val_of(x[3], T, w) for x in ini)]
            ob('C27.last', 'registration is complete after the last thread', not miss, 'm_initialized stays false for %d threads' % (miss[0][0] if miss else 0))
        # the result
        okend = names == ['startBarrier', 'waitBarrier', 'endBarrier']
        shared = s.store.get(F('m_error'))
        if not okend: ob('C27.error', 'a failing barrier is reported', is_num(v) and v[1] != 0, 'returns %s' % show(v)); kinds.add('nowait')
        elif is_num(v):
            if v[1] == 0: ob('C27.error', 'all threads see the same result', shared is not None and e.decide(s, cmp('==', shared, ZERO)) is True, 'success is returned without looking at the others')
            kinds.add('end')
        else:
            kinds.add('done')
            ob('C27.error', 'all threads see the same result', v == shared and v[0] == 'r', 'returns %s' % show(v))
    for k in ('again', 'nostart', 'failed', 'nowait', 'done'):
        if k not in kinds: raise AnalysisBroken('no path of kind %s through registerThread' % k)
    return n

def sat(s, T, w):
    """may the path be taken by the thread with number w of T?"""
    def leaf(t):
        if t == W: return w
        if t == ('i', F('m_totalThreads')): return T
        raise Unknown(t)
    for a, pol in s.conds.items():
        try: x = evaluate(a, leaf)
        except Unknown: continue
        if x != 'undefined' and bool(x) != pol: return False
    return True

def val_of(v, T, w):
    def leaf(t):
        if t == W: return w
        if t == ('i', F('m_totalThreads')): return T
        raise Unknown(t)
    try: return bool(evaluate(v, leaf))
    except Unknown: return True

GS = ('op', 'getspecific')
def getters(rep, p):
    """(thread number, domain number) as functions of the value in the key"""
    out = []
    for nm in ('threadId', 'domainId'):
        fn = p.fn(NU + '::' + nm)
        class K(Client):
            def call(self, eng, st, fr, node, name, obj, args):
                if name == 'pthread_getspecific':
                    k = eng.load(st, args[0], fr, node)
                    return [(st, GS if k == ('i', F('m_ptkey')) else ('op', 'otherkey'))]
        e = Engine(p, K(), 2000)
        e.sizes = {t: SIZES[t] for t in SIZES}
        r = e.run(fn); rep.engine(p, e)
        rep.ob('C27.number', '%s is read from the key' % nm, len(r) == 1 and GS in subterms(r[0][1]), 'returns %s' % [show(x) for _, x in r], fn)
        if len(r) != 1: return None
        out.append(r[0][1])
    for nm, want in (('totalThreads', ('i', F('m_totalThreads'))), ('totalDomains', ('i', ('f', F('m_domains'), '#size')))):
        fn = p.fn(NU + '::' + nm); e = Engine(p, Client(), 2000); r = e.run(fn); rep.engine(p, e)
        rep.ob('C27.number', '%s is the number registered' % nm, [x for _, x in r] == [want], 'returns %s' % [show(x) for _, x in r], fn)
    return out

SIZES = {'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned short': 2, 'uint32_t': 4, 'uint16_t': 2, 'std::uintptr_t': 8, 'uintptr_t': 8, 'numa::id_t': 4, 'id_t': 4, 'void *': 8, 'char': 1, 'unsigned char': 1}

def ev_num(t, vals):
    def leaf(x):
        if x in vals: return vals[x]
        if x[0] == 'op' and x[1] == 'sizeof' and x[2][1] in SIZES: return SIZES[x[2][1]]
        raise Unknown(x)
    return evaluate(t, leaf)

def truthy(e, s, v):
    return bool(v[1]) if is_num(v) else e.decide(s, cmp('!=', v, ZERO))

def is_id(t, g):
    """t is the thread number read from the key"""
    def ren(x):
        if isinstance(x, tuple):
            if x and x[0] == 'r' and len(x) > 3 and x[3] == 'pthread_getspecific': return GS
            return tuple(ren(y) for y in x)
        return x
    try: return all(ev_num(ren(t), {GS: x}) & M32 == ev_num(g, {GS: x}) & M32 for x in (0, 1, 5, 1 << 16, 1 << 32, (3 << 32) | 2, (255 << 32) | 7))
    except Unknown: return False

def roundtrip(v, key, w, d):
    for a in (0, 1, 2, 7, 255, 1000, 65535, 100000):
        for b in (0, 1, 2, 8, 300, 70000):
            try:
                x = ev_num(v, {w: a, d: b})
                got = ev_num(key[0], {GS: x}) & M32, ev_num(key[1], {GS: x}) & M32     # returned as unsigned int
            except Unknown as ex: return False, 'stores %s' % show(v)
            if got != (a, b): return False, 'thread %d of domain %d is found as thread %s of domain %s' % (a, b, got[0], got[1])
    return True, ''

def construction(rep, p):
    ct = [f for f in p.funcs.values() if f.get('cls') == NU and f.get('kind') == 'ctor' and f.get('blocks') and len(f['params']) == 0]
    if len(ct) != 1: raise AnalysisBroken('no constructor of ' + NU)
    fn = ct[0]
    e = Engine(p, RegClient(p), 2000); r = e.run(fn); rep.engine(p, e)
    for s, v in r:
        def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, None, s.trace())
        ev = (s.ts or (0, 0, ()))[2]
        kc = [x for x in ev if x[0] == 'sys' and x[1] == 'pthread_key_create']
        ob('C27.error', 'the key is created once', len(kc) == 1 and kc[0][2][0] == ('&', F('m_ptkey')), 'pthread_key_create: %d' % len(kc))
        ob('C27.last', 'nobody is registered at first', s.store.get(F('m_initialized')) == ZERO, 'm_initialized = %s' % s.store.get(F('m_initialized'), ('?',))[-1])
        ob('C27.error', 'there is no error at first', s.store.get(F('m_error')) == ZERO, 'm_error')
        ke = s.store.get(F('m_keyError'))
        if kc:
            bad = e.decide(s, cmp('!=', kc[0][3], ZERO))
            if ke is not None and ke[0] == 'op': ob('C27.error', 'a missing key is remembered', ke == truth(cmp('!=', kc[0][3], ZERO)), 'm_keyError = %s' % show(ke))
            else: ob('C27.error', 'a missing key is remembered', bad is not None and ke == C(1 if bad else 0), 'm_keyError = %s' % (show(ke) if ke else ke))
    # only registration changes the tables
    for f in p.funcs.values():
        if f.get('cls') == NU and f.get('blocks') and f['sn'] not in ('registerThread',) and f.get('kind') not in ('ctor', 'dtor'):
            e = Engine(p, RegClient(p), 4000)
            for s, v in e.run(f):
                for x in (s.ts or (0, 0, ()))[2]:
                    if x[0] == 'write': rep.ob('C27.lock', 'only registration changes the tables', reached_only_from(p, f, NU + '::registerThread'), '%s writes %s' % (f['sn'], x[1]), f, None, s.trace())
                if f['sn'] == 'setThreads': rep.ob('C27.number', 'the number of threads is the one set', s.store.get(F('m_totalThreads')) == S(f['params'][0]['n']) or v != ZERO, 'm_totalThreads', f)
    return len(r)

def reached_only_from(p, f, name):
    """a helper of the registration that nobody else calls"""
    who = {g['n'] for g in p.funcs.values() if g.get('blocks') and any(c.get('fn') == f['id'] for c in calls(g))}
    return bool(who) and who <= {name}

def uses(rep, p):
    """queries go to the container of the domain of the calling thread"""
    n = 0
    D = ('op', 'domain')
    class K(Client):
        def inline(self, eng, fn, name): return name.startswith('grid::Grid::')
        def call(self, eng, st, fr, node, name, obj, args):
            if name in (NU + '::domainId', 'numa::NoNuma::domainId'): return [(st, D)]
            if name.startswith('grid::Container::') or name.startswith('asagi::Grid::') and obj is not None:
                st.ts = (st.ts or ()) + ((name.split('::')[-1], eng.canon(st, obj)),); return [(st, ('op', 'value'))]
    for nm in ('getByte', 'getInt', 'getLong', 'getFloat', 'getDouble', 'getBuf'):
        for fn in [f for f in p.fns('grid::Grid::' + nm) if f.get('blocks')]:
            e = Engine(p, K(), 2000)
            r = e.run(fn); rep.engine(p, e)
            for s, v in r:
                for x in s.ts or ():
                    n += 1
                    want = ('d', ('i', ('e', F('m_containers'), D)))
                    rep.ob('C27.use', 'a query uses the container of the domain of its thread', x[1] == want, '%s asks %s' % (nm, showloc(x[1])), fn, None, s.trace())
                rep.ob('C27.use', 'every query asks a container', bool(s.ts), '%s' % nm, fn, None, s.trace())
    # createComm: one communicator, made by domain 0, for all
    for fn in [f for f in p.fns(NU + '::createComm') if f.get('blocks')]:
        class K2(Client):
            def inline(self, eng, f, name): return False
            def call(self, eng, st, fr, node, name, obj, args):
                if name.endswith('::domainId'): return [(st, D)]
                if name == 'threads::Sync::broadcast':
                    st.ts = (st.ts or ()) + (('broadcast', eng.load(st, args[0], fr, node)),)
                    l = eng.canon(st, args[0][1]) if args[0][0] in ('L', 'obj') else None
                    s2 = st.copy()
                    if l is not None and eng.decide(st, cmp('==', D, ZERO)) is not True: eng.write(st, l, ('op', 'shared'))
                    return [(st, C(1)), (s2, ZERO)]
                if node['k'] == 'ctor' and name.startswith('numa::NumaComm'): st.ts = (st.ts or ()) + (('new',),)
        e = Engine(p, K2(), 2000); r = e.run(fn); rep.engine(p, e)
        for s, v in r:
            ev = s.ts or (); z = e.decide(s, cmp('==', D, ZERO)); n += 1
            def ob(what, ok, msg): rep.ob('C27.comm', what, ok, msg, fn, None, s.trace())
            ob('one domain creates the communicator', (('new',) in ev) == (z is True) and z is not None, 'domain %s' % ('0' if z else 'other'))
            ob('all domains take part', [x[0] for x in ev].count('broadcast') == 1, 'no broadcast')
            if v != ZERO: ob('all domains get the same communicator', v == ('op', 'shared') or z is True and v[0] == '&', 'returns %s' % show(v))
    return n

def run(rep):
    rep.rule('C27.number', 'the thread number is the number of threads that registered before, taken under the lock; later queries decode exactly the numbers stored')
    rep.rule('C27.domain', 'the domain number belongs to the NUMA node of the thread; new domains are numbered consecutively')
    rep.rule('C27.master', 'exactly the first thread of a domain becomes master, and stays it when it registers again')
    rep.rule('C27.error', 'failing system calls, keys and barriers are reported, to all threads')
    rep.rule('C27.joint', 'every thread goes through the barrier, whatever happened before')
    rep.rule('C27.last', 'registration is complete exactly when the last thread is there')
    rep.rule('C27.lock', 'the registration tables are only touched under the lock, or read when complete')
    rep.rule('C27.use', 'queries use the container of the domain of the calling thread')
    rep.rule('C27.comm', 'one communicator for all domains')
    t = {}
    for cfg in (['default', 'nonuma_nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        for k, f in (('registration paths', registration), ('construction paths', construction), ('uses', uses)): t[k] = t.get(k, 0) + f(rep, p)
    for k, m in (('registration paths', 20), ('construction paths', 2), ('uses', 12)): rep.floor(k, t[k], m)
