"""C26: the distributed mutex: swap / hand-over protocol, its tags, its flags, and how it is used."""
import itertools
from ..query import *
from ..xfer import *
from . import c29
from .c29 import byparam, c_type
from .c13 import Monitor, MpiClient, locktype, exempt
from .c12 import Windows, consts, mutexwin, sized
from .c25 import divide

M = 'mpi::Mutex'

class MClient(XferClient):
    """one-sided operations with the values their buffers hold at that moment"""
    def __init__(self, p): XferClient.__init__(self, p, mutex=False)
    def mpi(self, eng, st, fr, node, name, a):
        if name in ('MPI_Fetch_and_op', 'MPI_Compare_and_swap', 'MPI_Get_accumulate', 'MPI_Put', 'MPI_Accumulate', 'MPI_Get'):
            val = []
            for x in a[:3]:
                try: val.append(eng.load(st, ('L', Engine.deref(x))) if x[0] == '&' else None)
                except Exception: val.append(None)
            eng.do_opaque(st, fr, node, name, None, list(a))
            out = {'MPI_Fetch_and_op': 1, 'MPI_Compare_and_swap': 2}.get(name)
            if out is not None:
                k = sum(1 for e in self.evs(st) if e[0] == 'rma')
                eng.write(st, Engine.deref(a[out]), S('flagvalue%d' % k))
            self.emit(st, ('rma', name, a, tuple(val)))
            return [(st, ZERO)]
        return None
    def special(self, eng, st, fr, node, name, obj, args):
        if name.startswith('mpi::') and name.endswith('::comm') and not args: return [(st, S('comm'))]
        if name.startswith('mpi::') and name.endswith('::reserveTags'):
            n = eng.load(st, args[0]); self.emit(st, ('tags', n)); return [(st, S('firstTag'))]
        return XferClient.special(self, eng, st, fr, node, name, obj, args)

def world(**kw):
    def leaf(t):
        if t[0] == 'i':
            k = showloc(t[1])
            if k in kw: return kw[k]
        raise Unknown(show(t))
    return leaf

WORLDS = [(R, T) for R in (1, 2, 3) for T in (1, 2, 3, 4)]

def protocol(rep, p):
    tagf = None
    # init: one tag per thread of this process, kept as the base of all tags
    for fn in p.fns(M + '::init'):
        for ev, h, s, v in paths(p, fn, rep, client=MClient(p)):
            tg = [e for e in ev if e[0] == 'tags']
            rep.ob('C26.tags', 'init: one tag for each thread is reserved', len(tg) == 1 and tg[0][1] == S('totalThreads'), 'reserves %s' % [show(e[1]) for e in tg], fn, trace=s.trace())
            f = [k[2] for k, y in s.store.items() if k[0] == 'f' and k[1] == THISLOC and y == S('firstTag')]
            rep.ob('C26.tags', 'init: the first reserved tag is kept', len(f) == 1, 'stored in %s' % f, fn, trace=s.trace())
            if f: tagf = f[0]
            for e in tg: pass
    store = {F(tagf): S('firstTag')} if tagf else {}
    # acquire
    ident = None; acq = None
    for fn in p.fns(M + '::acquire'):
        for ev, h, s, v in paths(p, fn, rep, store=store, client=MClient(p)):
            r = [e for e in ev if e[0] == 'rma']
            def ob(what, ok, msg): rep.ob('C26.acquire', what, ok, msg, fn, trace=s.trace())
            ob('one atomic operation', len(r) == 1 and r[0][1] in ('MPI_Fetch_and_op',), 'uses %s' % [e[1] for e in r])
            for e in r:
                if e[1] != 'MPI_Fetch_and_op': continue
                ob('the flag is exchanged', 'replace' in show(e[2][5]).lower(), 'operation %s' % show(e[2][5]))
                ob('the flag of the named entry', e[2][3] == P(fn, 0) and e[2][4] == P(fn, 1), 'rank %s, offset %s' % (show(e[2][3]), show(e[2][4])))
                ob('the flag is one long', 'long' in show(e[2][2]), 'type %s' % show(e[2][2]))
                if e[3][0] is not None:
                    ob('every path stores the same identity', ident in (None, e[3][0]), 'stores %s' % show(e[3][0])); ident = e[3][0]
            ob('the previous value is returned', v == S('flagvalue0'), 'returns %s' % (show(v) if v is not None else None))
    if ident is None: raise AnalysisBroken('the identity stored by mpi::Mutex::acquire is unknown')
    wt = {}
    # wait
    for fn in p.fns(M + '::wait'):
        e0 = Engine(p, Client()); n = 0
        for ev, h, s, v in paths(p, fn, rep, store=store, client=MClient(p)):
            c = [e for e in ev if e[0] == 'MPI']
            neg = e0.decide(s, cmp('<', P(fn, 0), ZERO))
            def ob(what, ok, msg): rep.ob('C26.wait', what, ok, msg, fn, trace=s.trace())
            if neg is True: ob('no waiting when the flag was clear', not c, 'communicates although the flag was clear'); continue
            ob('waits for the holder', len(c) == 1 and neg is False, '%d messages' % len(c))
            for e in c:
                ob('the hand-over is synchronous', e[1] in ('MPI_Ssend',), '%s does not wait for the holder' % e[1])
                if e[1] not in ('MPI_Ssend', 'MPI_Send'): continue
                n += 1
                ob('on the communicator of the mutex', e[2][5] == S('comm'), 'uses %s' % show(e[2][5]))
                wt['rank'], wt['tag'] = e[2][3], e[2][4]; wt['param'] = P(fn, 0)[1][1]; wt['n'], wt['fn'] = e[2][1:3], fn
        if not n: rep.ob('C26.wait', 'waits for the holder', False, 'no path waits', fn)
    # release
    for fn in p.fns(M + '::release'):
        e0 = Engine(p, Client())
        for ev, h, s, v in paths(p, fn, rep, store=store, client=MClient(p)):
            r = [e for e in ev if e[0] == 'rma']; c = [e for e in ev if e[0] == 'MPI' and 'flush' not in e[1]]
            def ob(what, ok, msg): rep.ob('C26.release', what, ok, msg, fn, trace=s.trace())
            ob('one atomic operation', len(r) == 1 and r[0][1] == 'MPI_Compare_and_swap', 'uses %s' % [e[1] for e in r])
            for e in r:
                if e[1] != 'MPI_Compare_and_swap': continue
                ob('the flag of the named entry', e[2][4] == P(fn, 0) and e[2][5] == P(fn, 1), 'rank %s, offset %s' % (show(e[2][4]), show(e[2][5])))
                ob('cleared only if it still holds the own identity', e[3][1] == ident, 'compares with %s' % (show(e[3][1]) if e[3][1] else None))
                ob('the clear value is no identity', e[3][0] is not None and is_num(e[3][0]) and e[3][0][1] < 0, 'clears with %s' % (show(e[3][0]) if e[3][0] else None))
            same = e0.decide(s, cmp('==', S('flagvalue0'), ident))
            if c: ob('a waiter is notified only if there is one', same is False, 'receives a hand-over although nobody may wait')
            else: ob('waiting processes are notified', same is True, 'leaves without a hand-over although somebody may wait')
            if c:
                ob('exactly one waiter is notified', len(c) == 1 and c[0][1] == 'MPI_Recv', '%s' % [e[1] for e in c])
                for e in c:
                    if e[1] != 'MPI_Recv': continue
                    wt.setdefault('recv', []).append((e[2][3], e[2][4], e[2][5], e[2][1:3], fn, s))
    # identities and tags fit together
    for R, T in WORLDS:
        ids = {}
        for r, t in itertools.product(range(R), range(T)):
            ids[(r, t)] = evaluate(ident, world(mpirank=r, mpisize=R, totalThreads=T, threadId=t, firstTag=100))
        rep.ob('C26.identity', 'each thread of each rank has its own identity', len(set(ids.values())) == len(ids) and all(x >= 0 for x in ids.values()), '%d ranks with %d threads: %s' % (R, T, ids), wt.get('fn'))
        if 'rank' not in wt: continue
        for (r, t), i in ids.items():
            env = {'mpirank': 0, 'mpisize': R, 'totalThreads': T, 'threadId': 0, 'firstTag': 100, wt['param']: i}
            dest = evaluate(wt['rank'], world(**env)); tag = evaluate(wt['tag'], world(**env))
            rep.ob('C26.match', 'a waiter addresses the holder', dest == r, 'identity of rank %d, thread %d is taken for rank %s' % (r, t, dest), wt['fn'])
            rep.ob('C26.match', 'tags are the reserved ones', 100 <= tag < 100 + T, 'tag %d + base' % (tag - 100), wt['fn'])
            for src, rt, comm, cnt, fn, s in wt.get('recv', []):
                own = evaluate(rt, world(mpirank=r, mpisize=R, totalThreads=T, threadId=t, firstTag=100))
                rep.ob('C26.match', 'the holder receives with the tag the waiter uses', own == tag, 'waiter sends tag base+%d, holder receives base+%d' % (tag - 100, own - 100), fn, trace=s.trace())
    rep.ob('C26.match', 'release receives the hand-over request', bool(wt.get('recv')), 'no hand-over is received')
    for src, rt, comm, cnt, fn, s in wt.get('recv', []):
        rep.ob('C26.match', 'any rank may be the waiter', is_num(src) and src[1] < 0 or 'any_source' in show(src).lower(), 'receives from %s only' % show(src), fn, trace=s.trace())
        rep.ob('C26.match', 'the hand-over uses the communicator of the mutex', comm == S('comm'), 'communicator %s' % show(comm), fn, trace=s.trace())
        if 'n' in wt: rep.ob('C26.match', 'hand-over messages have one size', cnt[0] == wt['n'][0], 'sends %s, receives %s' % (show(wt['n'][0]), show(cnt[0])), fn, trace=s.trace())
    for fn in p.fns(M + '::initMutexMem', required=False):
        for ev, h, s, v in paths(p, fn, rep):
            w = [y for k, y in s.store.items() if k[0] == 'd']
            rep.ob('C26.flag', 'a new flag is clear', len(w) == 1 and is_num(w[0]) and w[0][1] < 0, 'initialised with %s' % [show(x) for x in w], fn)

# ------------------------------------------------------------------ use
class Use(Windows):
    """the distributed mutex as operations, with the epochs and locks around them"""
    def __init__(self, p, cs): Windows.__init__(self, p, cs); self.o_mutex = True; self.waits = []
    def special(self, eng, st, fr, node, name, obj, args):
        if name == M + '::wait':
            ep, pend = self.state(st)
            self.waits.append((dict(ep), self.held(st), fr.fn, node.get('l'), st.trace()))
        return Windows.special(self, eng, st, fr, node, name, obj, args)
    def mpi(self, eng, st, fr, node, name, a):
        r = Windows.mpi(self, eng, st, fr, node, name, a)
        if r is not None and name in ('MPI_Win_lock', 'MPI_Win_unlock'):
            for s, v in r: s.ts = (s.ts[0], s.ts[1] + (('MPI', name, a),))
        return r

def use(rep, p):
    n = 0
    locks_at_wait = {}; cs = consts(p)
    lockset_release = {}
    pairs = {}
    for op in ('startTransfer', 'endTransfer', 'addBlock', 'deleteBlock'):
        for fn in p.fns('transfer::MPIWinCache::' + op, required=False):
            cl = Use(p, cs)
            for ev, h, s, v in paths(p, fn, rep, client=cl, budget=400000):
                mx = [e for e in ev if e[0] == 'mutex']
                if not mx: continue
                n += 1
                w = 'MPIWinCache::' + op; e0 = Engine(p, Client())
                def ob(rule, what, ok, msg): rep.ob(rule, w + ': ' + what, ok, msg, fn, trace=s.trace())
                holding = None; pending = None
                for i, e in enumerate(ev):
                    if e[0] == 'mutex' and e[1] == 'acquire':
                        ob('C26.use', 'one mutex at a time', holding is None, 'acquires a second mutex')
                        holding = e[2:4]; pending = e
                        flag(rep, p, fn, w, e, s)
                    elif e[0] == 'mutex' and e[1] == 'wait':
                        ob('C26.use', 'waits for the mutex just tried', pending is not None and e[2][0] == 'r', 'waits with %s' % show(e[2])); pending = None; res = e[2]
                    elif e[0] == 'mutex' and e[1] == 'release':
                        if op in ('deleteBlock', 'addBlock'): ob('C26.use', 'releases the mutex it acquired', holding == e[2:4], 'releases rank %s, offset %s' % (show(e[2]), show(e[3])))
                        flag(rep, p, fn, w, e, s); holding = None
                        pairs.setdefault(op, set()).add(e[2:4])
                if holding is not None: pairs.setdefault(op, set()).add(holding)
                if op == 'startTransfer': ob('C26.use', 'the mutex is held when the bracket starts', holding is not None, 'returns without the mutex')
                else: ob('C26.use', 'the mutex is released', holding is None, 'returns with the mutex held')
                if pending is not None:
                    # not waited: the flag must have been clear
                    a = next((c for c in s.conds if 'acquire' in repr(c)), None)
                    neg = any(acq_negative(c, v) for c, v in s.conds.items())
                    ob('C26.use', 'waits whenever the flag was set', neg, 'continues without waiting although the flag may have been set')
                # the data written back was read while the mutex excluded others
                puts = [i for i, e in enumerate(ev) if e[0] == 'MPI' and e[1] == 'MPI_Put']
                for i in puts:
                    g = [j for j, e in enumerate(ev[:i]) if e[0] == 'MPI' and e[1] == 'MPI_Get']
                    ok = bool(g) and not any(e[0] == 'MPI' and e[1] == 'MPI_Win_unlock' for e in ev[g[-1]:i])
                    ob('C26.fresh', 'the entry that is written back was read under the mutex', ok, 'the entry was read before the window was released to other processes')
            for ep, held, g, l, tr in cl.waits:
                rep.ob('C26.wait', '%s: other processes can reach the flag while it waits' % g['n'], not ep, 'waits for another process while the window is locked', g, l, tr)
                for lk, how in held: locks_at_wait.setdefault(op, []).append((lk, g, l, tr))
            # locks that an operation takes before its release of the mutex
            rel = set()
            for ev, h, s, v in paths(p, fn, None, client=XferClient(p), budget=400000):
                before = []
                for e in ev:
                    if e[0] == 'lock': before.append(e[1])
                    if e[0] == 'mutex' and e[1] == 'acquire': before = []
                    if e[0] == 'mutex' and e[1] == 'release': rel |= set(before)
            lockset_release[op] = rel
    for op, l in locks_at_wait.items():
        for lk, g, ln, tr in l:
            for op2, rel in lockset_release.items():
                if lockname(lk) == 'mpiLock' or lk[0] == 'g': continue     # held for the whole bracket: C13
                rep.ob('C26.wait', '%s waits without the locks that %s needs' % (g['n'], op2), lk not in rel, 'waits with %s held, which the holder takes before it releases' % lockname(lk), g, ln, tr)
    st, en = pairs.get('startTransfer'), pairs.get('endTransfer')
    if st and en:
        fs, fe = p.fns('transfer::MPIWinCache::startTransfer')[0], p.fns('transfer::MPIWinCache::endTransfer')[0]
        ren = lambda fn, x: subst(x, lambda t: S('arg%d' % [q['n'] for q in fn['params']].index(t[1][1])) if t[0] == 'i' and t[1][0] == 'p' and t[1][1] in [q['n'] for q in fn['params']] else None)
        a = set(tuple(ren(fs, y) for y in x) for x in st); b = set(tuple(ren(fe, y) for y in x) for x in en)
        rep.ob('C26.use', 'the bracket releases the mutex it acquired', a == b and len(a) == 1, 'acquires %s, releases %s' % ([tuple(map(show, x)) for x in a], [tuple(map(show, x)) for x in b]), fe)
    return n

def acq_negative(c, v):
    if c[0] != 'op' or 'acquire' not in repr(c): return False
    if c[1] == '<' and c[2][0] == 'r' and c[3] == ZERO: return v
    if c[1] == '<=' and c[2][0] == 'r' and is_num(c[3]) and c[3][1] < 0: return v
    if c[1] == '<' and is_num(c[2]) and c[2][1] <= -1 and c[3][0] == 'r': return not v
    if c[1] == '==' and any(is_num(x) and x[1] < 0 for x in c[2:]): return v
    if c[1] == '>=' and c[2][0] == 'r' and c[3] == ZERO: return not v
    return False

def flag(rep, p, fn, w, e, s):
    """a flag lies behind the entries of its own list and before the next list"""
    rank, off = e[2], e[3]
    d = P(fn, 2)
    rep.ob('C26.flag', w + ': the flag at the home rank of the entry', rank == P(fn, 1), 'flag of rank %s' % show(rank), fn, trace=s.trace())
    a = [subst(off, lambda t, k=k: C(k) if t == d else None) for k in (0, 1, 2)]
    stride = sub(a[1], a[0])
    ok = sub(a[2], a[1]) == stride and stride != ZERO
    size = entrysize(p)
    rep.ob('C26.flag', w + ': the flag lies behind the positions of its own entry', ok and a[0] == size and sub(stride, size) == ONE, 'flag at %s' % show(off), fn, trace=s.trace())

_es = {}
def entrysize(p):
    if id(p) not in _es:
        f = [k['n'] for c in p.classes.values() if c['n'].startswith('transfer::MPICache') for k in c['fields'] if 'ntrySize' in k['n']]
        if not f: raise AnalysisBroken('length of directory lists not found')
        _es[id(p)] = ('i', F(f[0]))
    return _es[id(p)]

def flags_initialised(rep, p):
    """initialisation of flags touches flags only"""
    n = 0
    for fi in p.fns('transfer::MPIWinCache::init'):
        ok = True
        for ev, h, s, v in paths(p, fi, rep, args=byparam(fi), client=InitClient(p)):
            for e in ev:
                if e[0] == 'mutex' and e[1] == 'initMutexMem':
                    l = e[2][1] if e[2][0] == 'loc' else Engine.deref(e[2])
                    idx = l[2] if l[0] == 'e' else ZERO
                    size = entrysize(p); stride = add(size, ONE)
                    r = sub(idx, size)
                    q = [y for y in syms(r) if y[0] == 'phi' or y == S('domainId')]
                    good = any(r == mul(stride, y) for y in syms(r)) or r == mul(stride, mul(S('blockCount'), S('domainId'))) or any(lin1(r, y, stride) for y in syms(r))
                    n += 1
                    rep.ob('C26.flag', 'initialisation writes flags only', good, 'initialises entry %s as a flag' % show(idx), fi, trace=s.trace())
    return n
def lin1(r, y, stride):
    a = [subst(r, lambda t, k=k: C(k) if t == y else None) for k in (0, 1, 2)]
    return sub(a[1], a[0]) == stride and sub(a[2], a[1]) == stride and (a[0] == ZERO or divisible(a[0], stride))
def divisible(t, stride):
    # t = stride * something: compare with the polynomial product for the known factors
    for y in (S('blockCount'), S('domainId'), mul(S('blockCount'), S('domainId'))):
        if t == mul(stride, y): return True
    return False

class Nest(Monitor): pass

def run(rep):
    rep.rule('C26.acquire', 'acquire atomically exchanges the flag with the own identity and returns the previous value')
    rep.rule('C26.wait', 'a process waits synchronously for the holder if the flag was set, while others can reach flag and locks')
    rep.rule('C26.release', 'release clears the flag if nobody waits, otherwise notifies exactly one waiter')
    rep.rule('C26.identity', 'identities are distinct for all threads of all ranks and never the clear value')
    rep.rule('C26.match', 'waiter and holder agree on rank, tag, communicator and size; tags are reserved for this mutex')
    rep.rule('C26.use', 'one mutex at a time, waited for, released at the place it was acquired')
    rep.rule('C26.fresh', 'directory entries are modified only from data read while the mutex is held')
    rep.rule('C26.flag', 'flags lie behind their own list and never overlap positions or other flags')
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        if not p.by_name.get(M + '::acquire'): continue
        protocol(rep, p)
        if not p.by_name.get('transfer::MPIWinCache::startTransfer') or not p.by_name.get('transfer::MPIWinCache::init'): continue
        n = use(rep, p)
        rep.floor(cfg + ': paths that use the mutex', n, 6)
        flags_initialised(rep, p)
