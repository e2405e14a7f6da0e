"""Lockset typestate: which mutexes a path holds, plus a sequence of events.

ts = (held, events): held is a sorted tuple of (lock location, how) with how in
'x' (blocking), 't' (try); events is a tuple of tuples chosen by the subclass.
"""
from .rules.base import *

LOCK_CLS = ('threads::PthreadMutex', 'std::mutex', 'std::recursive_mutex', 'std::timed_mutex')
NOOP_CLS = ('threads::NoopMutex',)
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')

def lockname(loc):
    """class-independent name of a lock: its field or global name"""
    k = loc[0]
    if k == 'f': return loc[2]
    if k == 'e': return lockname(loc[1]) + '[]'
    if k == 'd':
        t = loc[1]
        if t[0] == 'i': return lockname(t[1])
        if t[0] == '&': return lockname(t[1])
        if t[0] == 'op': return 'object'
        return show(t)
    if k == 'g': return loc[1].split('::')[-1]
    if k == 'h': return 'new ' + str(loc[3] if len(loc) > 3 else '')
    if k == 'v': return str(loc[2]).split(':')[1] if ':' in str(loc[2]) else str(loc[2])
    return str(k)

class LockClient(Summ):
    maxev = 80
    def __init__(self, prog, hooks=None, inline=None, evnames=None):
        Summ.__init__(self, hooks or {}, inline=inline)
        self.p = prog; self.problems = []; self.edges = {}; self.seen_locks = {}; self.evnames = evnames
        self.lockcalls = 0
    # ---- state access
    @staticmethod
    def held(st): return (st.ts or ((), ()))[0]
    @staticmethod
    def evs(st): return (st.ts or ((), ()))[1]
    def emit(self, st, ev):
        h, e = st.ts or ((), ())
        e = e + (ev,)
        if len(e) > self.maxev: raise Budget('too many events')
        st.ts = (h, e)
    def widen_ts(self, old, new):
        # a loop iteration that repeats the events of the previous one (same normalised arguments) adds nothing
        if not new: return new
        h, e = new
        again = True
        while again:
            again = False
            n = len(e)
            for k in range(1, n // 2 + 1):
                if e[n - k:] == e[n - 2 * k:n - k]: e = e[:n - k]; again = True; break
        return (h, e)
    def setheld(self, st, h):
        st.ts = (tuple(sorted(h, key=repr)), self.evs(st))
    def holds(self, st, loc):
        return any(l == loc for l, _ in self.held(st))
    def problem(self, kind, msg, fr, node, st):
        self.problems.append((kind, msg, fr.fn, node.get('l') if isinstance(node, dict) else None, st.trace()))
    # ---- lock operations
    def acquire(self, eng, st, fr, node, loc, how='x'):
        loc = eng.canon(st, loc)
        self.lockcalls += 1
        for l, h in self.held(st):
            if l == loc and how == 'x':
                self.problem('relock', 'locks %s which this path already holds' % lockname(loc), fr, node, st)
            if l != loc and how == 'x':
                self.edges.setdefault((lockname(l), lockname(loc)), (fr.fn, node.get('l'), st.trace()))
        self.seen_locks.setdefault(lockname(loc), fr.fn)
        self.setheld(st, self.held(st) + ((loc, how),))
        self.on_lock(eng, st, fr, node, loc, how)
    def release(self, eng, st, fr, node, loc):
        loc = eng.canon(st, loc)
        self.lockcalls += 1
        h = list(self.held(st))
        for x in h:
            if x[0] == loc:
                h.remove(x); break
        else:
            self.on_unheld(eng, st, fr, node, loc)
        self.setheld(st, h)
        self.on_unlock(eng, st, fr, node, loc)
    def on_lock(self, eng, st, fr, node, loc, how): pass
    def on_unlock(self, eng, st, fr, node, loc): pass
    def on_unheld(self, eng, st, fr, node, loc):
        self.problem('unheld', 'unlocks %s which this path does not hold' % lockname(loc), fr, node, st)
    def lockop(self, eng, st, fr, node, name, obj, args):
        """[(state, value)] if the call is a lock operation"""
        base, _, m = name.rpartition('::')
        if base in NOOP_CLS and m in ('lock', 'unlock'): return [(st, ZERO)]
        if base in NOOP_CLS and m == 'try_lock': return [(st, ONE)]
        if base in LOCK_CLS and obj is not None:
            if m == 'lock': self.acquire(eng, st, fr, node, obj); return [(st, ZERO)]
            if m == 'unlock': self.release(eng, st, fr, node, obj); return [(st, ZERO)]
            if m == 'try_lock':
                s2 = st.copy()
                s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'try_lock fails'))
                st.path = (st.path, (fr.fn['file'], node.get('l'), 'try_lock succeeds'))
                self.acquire(eng, st, fr, node, obj, 't')
                return [(st, ONE), (s2, ZERO)]
        if node['k'] == 'ctor' and base.split('<')[0] in GUARDS and args and args[0] is not None:
            a = args[0]
            if a[0] not in ('L', 'obj'): return None
            lk = eng.canon(st, a[1])
            t = node_cls(fr.fn, node)
            st.store[('f', obj, '#lock')] = ('&', lk)
            defer = len(args) > 1
            if 'NoopMutex' in t: st.store[('f', obj, '#own')] = ZERO
            elif defer: st.store[('f', obj, '#own')] = ZERO
            else:
                st.store[('f', obj, '#own')] = ONE
                self.acquire(eng, st, fr, node, lk)
            return [(st, None)]
        if base.split('<')[0] in GUARDS and obj is not None and m in ('lock', 'unlock', 'try_lock'):
            v = st.store.get(('f', obj, '#lock'))
            if v is None: return None
            if m == 'unlock': self.release(eng, st, fr, node, v[1]); st.store[('f', obj, '#own')] = ZERO
            else: self.acquire(eng, st, fr, node, v[1]); st.store[('f', obj, '#own')] = ONE
            return [(st, ONE)]
        return None
    def call(self, eng, st, fr, node, name, obj, args):
        r = self.lockop(eng, st, fr, node, name, obj, args)
        if r is not None: return r
        r = self.special(eng, st, fr, node, name, obj, args)
        if r is not None: return r
        return Summ.call(self, eng, st, fr, node, name, obj, args)
    def special(self, eng, st, fr, node, name, obj, args): return None
    def dtor(self, eng, st, fr, e, name, loc):
        v = st.store.get(('f', loc, '#lock'))
        if v is not None:
            if st.store.get(('f', loc, '#own')) == ONE: self.release(eng, st, fr, e, v[1])
            for k in ('#lock', '#own'): st.store.pop(('f', loc, k), None)
            return [st]
        return None

def node_cls(fn, node):
    t = node.get('t')
    return (fn['T'][t] if isinstance(t, int) and t >= 0 else '') + ' ' + str(node.get('clsfull', ''))
