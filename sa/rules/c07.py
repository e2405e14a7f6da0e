"""C07: typestate of cache slots: look-up locks the slot, uses lie before the only unlock."""
from ..query import *
from ..xfer import *
from ..locks import *

def slotno(v):
    """k if the value is (a pointer into) the data of slot k of this path"""
    if v is None: return None
    b, _ = ptr(v)
    for x in (v, b):
        if isinstance(x, tuple) and x[:2] == ('op', 'slotdata'): return x[2][1]
    return None

def check_seq(rep, rule, where, fn, ev, st, uses, ends):
    """uses(e) -> pointer values accessed by the event; ends(e) -> (object, slot) released"""
    held, ever, pending = {}, {}, {}
    bad = []
    for e in ev:
        if e[0] == 'MPI' and e[1] in ('MPI_Isend', 'MPI_Issend', 'MPI_Irecv'):
            k = slotno(e[2][0])
            if k is not None: pending[e[2][6]] = k
        if e[0] == 'MPI' and (e[1] == 'MPI_Wait' or e[1] == 'MPI_Test' and e[3]): pending.pop(e[2][0], None)
        if e[0] in ('get', 'tryget'):
            if e[0] == 'get' and len(e) > 4: obj, k = e[5], e[3][2][1]
            else: obj, k = e[1], e[3]
            held[k] = obj; ever[k] = obj; continue
        r = ends(e)
        if r is not None:
            obj, slot = r
            k = slot[2][1] if isinstance(slot, tuple) and slot[:2] == ('op', 'slot') else None
            if k is None or k not in ever: bad.append('releases slot %s, which is not the slot of any look-up on this path' % (show(slot) if slot else slot))
            elif k not in held: bad.append('releases a slot a second time')
            elif held[k] != obj: bad.append('releases the slot at another cache manager than the one that locked it')
            if k in pending.values(): bad.append('releases the slot while a message is still being sent from it')
            held.pop(k, None); continue
        for v in uses(e):
            k = slotno(v)
            if k is not None and k not in held: bad.append('uses the slot memory (%s) after the slot was released' % e[0])
    for k in held: bad.append('returns with the slot still locked')
    for b in sorted(set(bad)): rep.ob(rule, where + ': ' + b, False, b, fn, trace=st.trace())
    if not bad: rep.ob(rule, where, True)
    return len(ever)

def quse(e):
    if e[0] == 'convert': return [e[1]]
    if e[0] == 'load': return [e[3]]
    if e[0] in ('numa', 'mpi', 'mpifull'): return [e[1][-1]]
    return []

class ManagerClient(LockClient):
    """cache manager internals: the cache list is an operation of the alphabet"""
    def special(self, eng, st, fr, node, name, obj, args):
        if name in ('cache::CacheList::getIndex', 'cache::CacheList::getFreeIndex'):
            sn = name.split('::')[-1]
            ld = lambda a: eng.load(st, a, fr, node)
            k = len([e for e in self.evs(st) if e[0] in ('found', 'free')])
            idx = ('op', 'index', C(k))
            out = []
            if sn == 'getIndex':
                s2 = st.copy(); self.emit(s2, ('absent', ld(args[0])))
                s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'block is not cached'))
                out.append((s2, ZERO))
            eng.write(st, eng.canon(st, args[1][1]), idx)
            self.emit(st, ('found' if sn == 'getIndex' else 'free', ld(args[0]), idx))
            out.append((st, ONE if sn == 'getIndex' else ('op', 'old', C(k))))
            return out
        return None
    def on_lock(self, eng, st, fr, node, loc, how): self.emit(st, ('lock', loc, how))
    def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))

def manager(rep, p):
    n = 0
    for name in ('get', 'tryGet'):
        fn = p.fn('cache::CacheManager::' + name)
        c = ManagerClient(p)
        args = None
        for ev, held, s, v in paths(p, fn, rep, client=c):
            n += 1
            e = Engine(p, c)
            found = [x for x in ev if x[0] in ('found', 'free')]
            tr = s.trace()
            w = 'CacheManager::' + name
            ok = name == 'get' or v == ONE
            if name == 'tryGet' and v not in (ZERO, ONE): rep.ob('C07.manager', w + ' returns success or failure', False, 'returns %s' % show(v), fn, trace=tr); continue
            if not ok:
                rep.ob('C07.manager', w + ': failure leaves nothing locked', not held, 'reports failure while holding %s' % [lockname(l) for l, _ in held], fn, trace=tr)
                continue
            rep.ob('C07.manager', w + ': success follows a look-up', bool(found), 'returns a slot without a look-up', fn, trace=tr)
            if not found: continue
            idx = found[-1][2]
            off = e.read(s, ('d', P(fn, 1))); data = e.read(s, ('d', P(fn, 2)))
            if fn['params'][1]['n']:
                off = e.read(s, ('d', ('i', ('p', fn['params'][1]['n'])))); data = e.read(s, ('d', ('i', ('p', fn['params'][2]['n']))))
            rep.ob('C07.manager', w + ': reports the slot it looked up', off == idx, 'slot reported: %s, looked up: %s' % (show(off), show(idx)), fn, trace=tr)
            locks = [l for l, _ in held]
            good = len(locks) == 1 and locks[0][0] == 'e' and locks[0][2] == idx
            rep.ob('C07.manager', w + ': returns with exactly the lock of that slot', good, 'holds %s' % [showloc(l) for l in locks], fn, trace=tr)
            b, o = ptr(data)
            want = mul(idx, ('i', F('m_blockSize')))
            rep.ob('C07.manager', w + ': memory of slot i starts at i * block size', o is not None and o != ZERO and iszero_at(o, idx) and linear(o, idx), 'slot memory starts at %s' % show(data), fn, trace=tr)
            # the index lock may not be given up between the look-up and locking the slot
            pos = max(i for i, x in enumerate(ev) if x[0] in ('found', 'free'))
            first = min(i for i, x in enumerate(ev) if x[0] in ('found', 'free', 'absent'))
            heldidx = [x[1] for i, x in enumerate(ev) if x[0] == 'lock' and i < first]
            sl = [i for i, x in enumerate(ev) if x[0] == 'lock' and good and x[1] == locks[0]]
            cm = [l for l in heldidx if not (good and l == locks[0])]
            rep.ob('C07.manager', w + ': the cache index is locked during the look-up', bool(cm), 'no lock is held at the look-up', fn, trace=tr)
            if cm and sl:
                gap = any(x[0] == 'unlock' and x[1] in cm for x in ev[first:sl[-1]])
                rep.ob('C07.manager', w + ': slot is locked before the index is released', not gap, 'the index lock is released between the look-up and locking the slot: the slot can be reassigned in between', fn, trace=tr)
            if name == 'tryGet':
                blk = [x for x in ev if x[0] == 'lock' and x[2] == 'x']
                rep.ob('C07.manager', 'tryGet never waits for a lock', not blk, 'tryGet blocks on %s' % [lockname(x[1]) for x in blk], fn, trace=tr)
                rep.ob('C07.manager', 'tryGet never replaces a block', all(x[0] != 'free' for x in ev), 'tryGet calls the replacement policy', fn, trace=tr)
        for k, msg, f, l, tr in c.problems:
            rep.ob('C07.manager', 'CacheManager::%s: %s' % (name, k), False, msg, f, l, tr)
    fn = p.fn('cache::CacheManager::unlock')
    class U(LockClient):
        def on_unheld(self, eng, st, fr, node, loc): pass
        def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))
    for ev, held, s, v in paths(p, fn, rep, client=U(p)):
        n += 1
        ok = len(ev) == 1 and ev[0][0] == 'unlock' and ev[0][1][0] == 'e' and ev[0][1][2] == P(fn, 0) and not held
        rep.ob('C07.manager', 'unlock releases exactly the lock of the given slot', ok, 'unlocks %s' % [showloc(x[1]) for x in ev], fn, trace=s.trace())
    # one lock and one block of memory per slot, starting at the given memory
    fn = p.fn('cache::CacheManager::init')
    hooks = {'cache::CacheList::init': lambda eng, st, node, obj, args: (st.store.__setitem__(('#clinit',), ('t', eng.load(st, args[0]))), ZERO)[1]}
    for ev, held, s, v in paths(p, fn, rep, client=XferClient(p, hooks)):
        e = Engine(p, Client())
        rep.ob('C07.init', 'slot memory is the memory given', e.read(s, F('m_cache')) == P(fn, 0) if ('f', THISLOC, 'm_cache') in s.store else any(x == P(fn, 0) for k, x in s.store.items() if k[0] == 'f' and k[1] == THISLOC), 'the memory pointer is not stored', fn)
        sizes = [x for k, x in s.store.items() if k[0] == 'newsize' or (k[0] == 'f' and k[2] == '#len')]
        n += 1
    return n

def iszero_at(o, idx):
    """the offset vanishes for slot 0"""
    z = subst(o, lambda t: ZERO if t == idx else None)
    return z == ZERO
def linear(o, idx):
    a = [subst(o, lambda t, k=k: C(k) if t == idx else None) for k in (1, 2, 3)]
    return sub(a[1], a[0]) == a[0] and sub(a[2], a[1]) == a[0] and not any(x == idx for x in syms(a[0]))

def transfers(rep, p):
    n = 0
    names = ['transfer::NumaCache::transfer', 'transfer::NumaFullCache::transfer', 'transfer::MPIThreadCache::BlockTransferer::recv', 'transfer::NumaFull::transfer', 'transfer::MPIThreadCache::transfer', 'transfer::MPIWinCache::transfer']
    for nm in names:
        for fn in p.fns(nm, required=False):
            c = XferClient(p)
            def uses(e):
                if e[0] == 'memcpy': return [e[1], e[2]]
                if e[0] == 'MPI': return list(e[2])
                if e[0] == 'send': return list(e[1:])
                return []
            for ev, held, s, v in paths(p, fn, rep, client=c):
                n += check_seq(rep, 'C07.transfer', fn['cls'].split('::')[-1] + '::' + fn['sn'], fn, ev, s, uses, lambda e: (e[1], e[2]) if e[0] == 'cunlock' else None)
    return n

def anywhere(rep, p):
    """who uses the cache manager at all"""
    known = ('grid::level::', 'transfer::', 'cache::')
    n = 0
    for fn in p.funcs.values():
        if not fn.get('blocks') or '/tests/' in fn.get('file', ''): continue
        for c in calls(fn):
            nm = c.get('n') or ''
            if nm in ('cache::CacheManager::get', 'cache::CacheManager::tryGet', 'cache::CacheManager::unlock'):
                n += 1
                cov = fn['n'].startswith(known)
                rep.ob('C07.users', fn['n'], cov, 'slot look-up outside the analysed classes', fn, c.get('l'))
    return n

def run(rep):
    rep.rule('C07.query', 'on every path of every value query, slot memory is only used between the look-up that locked it and the one unlock of that slot at the same cache manager')
    rep.rule('C07.transfer', 'the same for transfers between caches and the remote block server')
    rep.rule('C07.manager', 'look-ups return with exactly the lock of the reported slot, taken before the index lock is released; try variants never wait')
    nq = nt = nm = nu = 0
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt', 'nonuma_nompi']).items():
        for cls, full, fn, res in queries(p, rep, all_types=TIER != 'quick'):
            for ev, s in res:
                nq += check_seq(rep, 'C07.query', short(full), fn, ev, s, quse, lambda e: (e[2], e[1]) if e[0] == 'unlock' else None)
                for e in ev:
                    if e[0] == 'convert':
                        rep.ob('C07.source', short(full) + ': values are read from own slot or own storage', slotno(e[1]) is not None or cls in ('Full', 'FullDist', 'PassThrough'), 'reads from %s' % show(e[1]), fn, trace=s.trace())
        nt += transfers(rep, p)
        nm += manager(rep, p)
        nu += anywhere(rep, p)
    rep.floor('slot look-ups on query paths', nq, 20)
    rep.floor('slot look-ups in transfers', nt, 2)
    rep.floor('paths of the cache manager', nm, 10)
    rep.floor('call sites of the cache manager', nu, 8)
