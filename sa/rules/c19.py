"""C19: the barrier as a monitor. Every piece of code between two points where the mutex is given up is one atomic step;
the steps are checked against the invariant of the protocol (who may leave when, who wakes whom, when a round ends)."""
import re
from ..locks import *
from ..xfer import *

SY = 'threads::Sync'
PT = ('pthread_mutex_t', 'pthread_cond_t')

class SyncIn(LockClient):
    """inside of the Sync class: pthread calls by their contracts, shared fields change whenever the mutex is given up"""
    def __init__(self, p, fields, counted):
        LockClient.__init__(self, p); self.fields = fields; self.counted = counted; self.bad = []
    def at(self, eng, st): return {f: eng.read(st, F(f)) for f in self.fields}
    def write(self, eng, st, fr, node, loc, val):
        loc = eng.canon(st, loc)
        if loc[0] == 'f' and loc[1] == THISLOC and loc[2] in self.fields:
            self.emit(st, ('w', loc[2], eng.read(st, loc), val, tuple(sorted(self.at(eng, st).items())), bool(self.held(st)), fr.fn['n'], node.get('l')))
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        def two(s, what, v=None):
            s2 = s.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            e = ('r', (fr.fid, node.get('i')), eng.count(s2, (fr.fid, node.get('i'))), name)
            eng.assume(s2, cmp('!=', e, ZERO), True)
            st.sym = st.sym | frozenset(st.loops); s2.sym = s2.sym | frozenset(s2.loops)
            return s2, e
        if name in ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock'):
            s2, e = two(st, name)
            self.emit(st, ('plock', name, Engine.deref(ld(args[0]))))
            self.acquire(eng, st, fr, node, Engine.deref(ld(args[0])))
            self.havoc(eng, st, fr, node, False)
            return [(st, ZERO), (s2, e)]
        if name == 'pthread_mutex_unlock':
            l = Engine.deref(ld(args[0])); s2, e = two(st, name)
            for s in (st, s2):
                self.emit(s, ('punlock', l)); self.release(eng, s, fr, node, l)
            return [(st, ZERO), (s2, e)]
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait'):
            c, m = Engine.deref(ld(args[0])), Engine.deref(ld(args[1]))
            cur = self.at(eng, st)
            facts = {}
            for f in self.fields:
                d = eng.decide(st, truth(cur[f])) if f in cur else None
                facts[f] = d
            more = eng.decide(st, cmp('>', cur['m_syncedThreads'], cur['m_lastThreads'])) if 'm_lastThreads' in cur else None
            ev = ('wait', name, c, m, any(l == m for l, _ in self.held(st)), facts.get('m_finishing'), more, fr.fn['n'], node.get('l'))
            self.emit(st, ev)
            s2, e = two(st, name)
            self.havoc(eng, st, fr, node, facts.get('m_finishing') is True and self.counted)
            return [(st, ZERO), (s2, e)]
        if name in ('pthread_cond_broadcast', 'pthread_cond_signal'):
            c = Engine.deref(ld(args[0])); self.emit(st, ('wake', name, c))
            s2, e = two(st, name)
            return [(st, ZERO), (s2, e)]
        return None
    def havoc(self, eng, st, fr, node, finishing):
        """other threads ran: every field may have changed; while this thread is counted the round cannot end
        (obligation C19.end), so a true finishing flag stays true"""
        site = (fr.fid, node.get('i'))
        n = eng.count(st, site)
        for i, f in enumerate(sorted(self.fields)):
            if f == 'm_finishing' and finishing: continue
            st.store[F(f)] = ('o', site, n, f)

def run_in(p, fn, rep, fields, counted, store=None, held=False):
    c = SyncIn(p, fields, counted); e = Engine(p, c, 200000)
    st = State()
    for k, v in (store or {}).items(): st.store[k] = v
    st.ts = (((F('m_mutex'), 'x'),), ()) if held else ((), ())
    r = e.run(fn, st=st)
    rep.engine(p, e)
    if not r: raise AnalysisBroken('no path through ' + fn['n'])
    return c, [(c.evs(s), c.held(s), s, v) for s, v in r]

def segments(ev):
    """events between two points where the mutex is given up"""
    out = [[]]
    for e in ev:
        out[-1].append(e)
        if e[0] in ('wait', 'punlock'): out.append([])
    return out

def monitor(rep, p):
    n = 0
    cl = p.classes[SY]
    fields = [f['n'] for f in cl['fields'] if cl['T'][f['t']] not in PT]
    for need in ('m_syncedThreads', 'm_finishing', 'm_lastThreads'):
        if need not in fields: raise AnalysisBroken('threads::Sync has no field ' + need)
    roles = {'all': set(), 'last': set(), 'start': set()}
    eng0 = Engine(p, Client())
    # ---- start
    for fn in p.fns(SY + '::startBarrier'):
        c, res = run_in(p, fn, rep, fields, False)
        for ev, held, s, v in res:
            n += 1; tr = s.trace()
            def ob(rule, what, ok, msg, line=None): rep.ob(rule, 'startBarrier: ' + what, ok, msg, fn, line, tr)
            for e in ev:
                if e[0] == 'plock': ob('C19.lock', 'waits for the mutex', e[1] == 'pthread_mutex_lock', '%s gives up when the mutex is busy' % e[1])
                if e[0] == 'wait':
                    ob('C19.wait', 'waits with the mutex', e[4], 'the mutex passed to the wait is not held', e[8])
                    ob('C19.wait', 'waits only while the previous round is finishing', e[5] is True, 'waits without having seen that a round is finishing', e[8])
                    roles['start'].add(e[2])
                if e[0] == 'w': ob('C19.count', 'changes nothing', False, 'writes %s' % e[1], e[7])
            ok = eng0.decide(s, truth(v))
            if ok is None: ob('C19.error', 'the result is known', False, 'returns %s' % show(v))
            elif ok:
                ob('C19.round', 'a thread enters only when the previous round has ended', eng0.decide(s, truth(eng0.read(s, F('m_finishing')))) is False, 'returns true although the previous round may still be finishing (the flag is not checked again after a wait)')
                ob('C19.lock', 'returns true with the mutex held', len(held) == 1, 'holds %s' % [lockname(l) for l, _ in held])
            else:
                ob('C19.error', 'returns false without the mutex', not held, 'the mutex stays locked')
            if any('fails' in str(x) for x in tr): ob('C19.error', 'a failing call is reported', ok is False, 'returns true although a call failed')
    # ---- wait
    numres = []
    for fn in p.fns(SY + '::waitBarrier'):
        N, last = P(fn, 0), P(fn, 1)
        c, res = run_in(p, fn, rep, fields, True, store={F('m_finishing'): ZERO}, held=True)
        for ev, held, s, v in res:
            n += 1; tr = s.trace()
            def ob(rule, what, ok, msg, line=None): rep.ob(rule, 'waitBarrier: ' + what, ok, msg, fn, line, tr)
            for e in ev:
                if e[0] == 'wait':
                    ob('C19.wait', 'waits with the mutex', e[4] and e[3] == F('m_mutex'), 'the mutex passed to the wait is not held', e[8])
                    if e[5] is False: roles['all'].add(e[2])
                    elif e[5] is True and e[6] is True: roles['last'].add(e[2])
                    else: ob('C19.wait', 'waits only after checking that there is something to wait for', False, 'the wake-up may have happened before the wait', e[8])
                if e[0] == 'w': ob('C19.lock', 'shared state is changed with the mutex held', e[5], '%s is written without the mutex' % e[1], e[7])
                if e[0] == 'plock': ob('C19.lock', 'the mutex is not taken again', False, 'locks inside of the barrier')
            ok = eng0.decide(s, truth(v))
            fail = any('fails' in str(x) for x in tr)
            if ok is None: ob('C19.error', 'the result is known', False, 'returns %s' % show(v)); continue
            numres.append((fn, ev, held, s, ok, tr, N, last))
            if not ok:
                ob('C19.error', 'returns false without the mutex', not held, 'the mutex stays locked')
                continue
            ob('C19.lock', 'returns true with the mutex held', len(held) == 1, 'the mutex is not held')
            ob('C19.error', 'a failing wait is reported', not any('wait' in str(x) and 'fails' in str(x) for x in tr), 'returns true although a wait failed')
            lst = eng0.decide(s, truth(last))
            W = {f: [e for e in ev if e[0] == 'w' and e[1] == f] for f in fields}
            inc = [e for e in W['m_syncedThreads'] if e[3] == add(e[2], ONE)]; dec = [e for e in W['m_syncedThreads'] if e[3] == sub(e[2], ONE)]
            ob('C19.count', 'counts the thread once when it arrives', len(inc) == 1 and len(W['m_syncedThreads']) == len(inc) + len(dec), '%d increments, %d other writes' % (len(inc), len(W['m_syncedThreads']) - len(inc) - len(dec)))
            ob('C19.count', 'counts the thread off once when it leaves', len(dec) == 1, '%d decrements' % len(dec))
            linc = [e for e in W['m_lastThreads'] if e[3] == add(e[2], ONE)]; ldec = [e for e in W['m_lastThreads'] if e[3] == sub(e[2], ONE)]
            want = {True: 1, False: 0}.get(lst)
            ob('C19.count', 'last threads are counted separately', want is not None and len(linc) == want and len(ldec) == want and len(W['m_lastThreads']) == 2 * want, 'a thread with last=%s increments %d and decrements %d times' % (lst, len(linc), len(ldec)))
            if len(inc) != 1 or len(dec) != 1: continue
            sg = segments(ev)
            where = lambda e: [i for i, g in enumerate(sg) if any(x is e for x in g)]
            waits = [i for i, e in enumerate(ev) if e[0] == 'wait']
            iinc, idec = [i for i, e in enumerate(ev) if e is inc[0]][0], [i for i, e in enumerate(ev) if e is dec[0]][0]
            ob('C19.count', 'the arrival is counted before the first wait', not waits or iinc < waits[0], 'waits before the thread is counted')
            ob('C19.count', 'the departure is counted after the last wait', not waits or idec > waits[-1], 'waits after the thread has been counted off')
            for e in linc: ob('C19.count', 'both counters are raised in one step', not waits or [i for i, x in enumerate(ev) if x is e][0] < waits[0], 'waits in between')
            for e in ldec: ob('C19.count', 'both counters are lowered in one step', not waits or [i for i, x in enumerate(ev) if x is e][0] > waits[-1], 'waits in between')
            # leaving
            firstdec = min([idec] + [i for i, x in enumerate(ev) if any(x is e for e in ldec)])
            at = dict(ev[firstdec][4])
            ob('C19.leave', 'nobody leaves before everybody has arrived', eng0.decide(s, truth(at['m_finishing'])) is True, 'leaves although the barrier may not be complete (the flag is not checked again after a wait)', ev[firstdec][7])
            if lst: ob('C19.leave', 'a last thread leaves after all others', eng0.decide(s, cmp('>', at['m_syncedThreads'], at['m_lastThreads'])) is False, 'leaves although other threads may still be inside', ev[firstdec][7])
            # completing
            full = cmp('==', inc[0][3], N)
            d = eng0.decide(s, full)
            up = [e for e in W['m_finishing'] if eng0.decide(s, truth(e[3])) is True]; down = [e for e in W['m_finishing'] if eng0.decide(s, truth(e[3])) is False]
            ob('C19.complete', 'it is decided whether this thread completes the barrier', d is not None, 'the number of threads is not compared with numThreads')
            if d: ob('C19.complete', 'the thread that completes the barrier opens it', len(up) == 1, 'the flag is not set')
            else: ob('C19.complete', 'only the thread that completes the barrier opens it', not up, 'the flag is set before all threads have arrived')
            # ending
            z = eng0.decide(s, cmp('==', dec[0][3], ZERO))
            ob('C19.end', 'it is decided whether this thread is the last to leave', z is not None, 'the number of remaining threads is not checked')
            if z: ob('C19.end', 'the last thread to leave ends the round', len(down) == 1, 'the round is never ended')
            else: ob('C19.end', 'nobody else ends the round', not down, 'the round is ended while threads are inside')
            for e in down:
                i = [k for k, x in enumerate(ev) if x is e][0]
                ob('C19.end', 'the round ends after the thread has been counted off', i > idec, 'ends too early')
        # wake-ups need the condition variables of all waits
        for fn, ev, held, s, ok, tr, N, last in numres:
            lst = eng0.decide(s, truth(last))
            for g in segments(ev):
                woken = {x[2]: x[1] for x in g if x[0] == 'wake'}
                def wake(role, why):
                    for cnd in sorted(roles[role], key=repr):
                        rep.ob('C19.wake', 'waitBarrier: %s' % why, woken.get(cnd) == 'pthread_cond_broadcast' , ('only one of the waiting threads is woken' if cnd in woken else 'nobody is woken on %s' % showloc(cnd)), fn, trace=tr)
                up = [e for e in g if e[0] == 'w' and e[1] == 'm_finishing' and eng0.decide(s, truth(e[3])) is True]
                down = [e for e in g if e[0] == 'w' and e[1] == 'm_finishing' and eng0.decide(s, truth(e[3])) is False]
                dec = [e for e in g if e[0] == 'w' and e[1] == 'm_syncedThreads' and e[3] == sub(e[2], ONE)]
                early = not ok and not (up or down or dec)
                if early: continue
                # a failing wake-up call ends the path: only what was attempted before it can be demanded
                broke = not ok and any('fails' in str(x) for x in tr)
                if up: wake('all', 'completing the barrier wakes all waiting threads')
                if broke: continue
                if down: wake('start', 'ending the round wakes all threads that want to enter')
                for e in dec:
                    if lst: continue
                    now = {**dict(e[4]), 'm_syncedThreads': e[3]}
                    rest = eng0.decide(s, cmp('>', now['m_syncedThreads'], now['m_lastThreads']))
                    eq = eng0.decide(s, cmp('==', now['m_syncedThreads'], now['m_lastThreads']))
                    if rest is True or eq is False: continue
                    wake('last', 'the last of the ordinary threads wakes the last threads')
    for r in roles: rep.ob('C19.wait', 'threads wait for: %s' % {'all': 'the completion of the barrier', 'last': 'the other threads to leave', 'start': 'the end of the previous round'}[r], len(roles[r]) >= 1, 'there is no such wait')
    # ---- end
    for fn in p.fns(SY + '::endBarrier'):
        c, res = run_in(p, fn, rep, fields, False, held=True)
        for ev, held, s, v in res:
            n += 1; tr = s.trace(); ok = eng0.decide(s, truth(v)); fail = any('fails' in str(x) for x in tr)
            rep.ob('C19.lock', 'endBarrier: releases the mutex', not held, 'the mutex stays locked', fn, trace=tr)
            rep.ob('C19.error', 'endBarrier: reports the result of the unlock', ok is (not fail), 'returns %s' % show(v), fn, trace=tr)
            rep.ob('C19.count', 'endBarrier: changes nothing', not any(e[0] == 'w' for e in ev), 'writes shared state', fn, trace=tr)
    for fn in p.fns(SY + '::waiting'):
        c, res = run_in(p, fn, rep, fields, False, held=True)
        for ev, held, s, v in res:
            rep.ob('C19.count', 'waiting() is the number of threads that have arrived', v == ('i', F('m_syncedThreads')), 'returns %s' % show(v), fn)
    for fn in [f for f in p.fns(SY + '::Sync') if f.get('blocks')]:
        r, e = summary(p, fn, rep=rep)
        for s, _ in r:
            for f in ('m_syncedThreads', 'm_lastThreads', 'm_finishing'):
                rep.ob('C19.init', 'a new barrier is empty: ' + f, s.store.get(F(f)) == ZERO, '%s starts with %s' % (f, show(s.store[F(f)]) if F(f) in s.store else 'no value'), fn)
    return n

class Use(LockClient):
    """users of the Sync class: its operations by their contracts"""
    def __init__(self, p, whole): LockClient.__init__(self, p); self.whole = whole
    def inline(self, eng, fn, name): return not name.startswith('std::')
    def write(self, eng, st, fr, node, loc, val):
        if fr.fn.get('cls') == SY: self.emit(st, ('w', eng.canon(st, loc), val, fr.fn['n'], node.get('l')))
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        sn = name.split('::')[-1]
        if name.startswith(SY + '::') and sn in ('startBarrier', 'waitBarrier', 'endBarrier') + (('barrier', 'broadcast') if self.whole else ()):
            o = eng.canon(st, obj)
            a = tuple(ld(x) for x in args[(1 if sn == 'broadcast' else 0):])
            d = eng.canon(st, args[0][1]) if sn == 'broadcast' and args[0] is not None and args[0][0] in ('L', 'obj') else None
            self.emit(st, (sn, o, a, d, fr.fn['n'], node.get('l')))
            s2 = st.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), sn + ' fails'))
            self.emit(s2, ('failed', sn, o))
            st.sym = st.sym | frozenset(st.loops); s2.sym = s2.sym | frozenset(s2.loops)
            site = (fr.fid, node.get('i'))
            if sn == 'waitBarrier': eng.write(st, ('f', o, 'm_data'), S('published'))
            if sn == 'broadcast' and d is not None: eng.write(st, d, ('o', site, eng.count(st, site), 0))
            return [(st, ONE), (s2, ZERO)]
        if name == 'pthread_getspecific': return [(st, S('ids'))]
        if name.startswith(('pthread_', 'sched_', 'numa_')) : return [(st, ('r', (fr.fid, node.get('i')), eng.count(st, (fr.fid, node.get('i'))), name))]
        return None

def brackets(rep, p):
    """every use of start/wait/end: in this order, on one barrier, ended on every path"""
    n = 0
    ops = ('startBarrier', 'waitBarrier', 'endBarrier')
    own = {f['id'] for f in p.funcs.values() if f.get('cls') == SY}
    want = {f['id'] for f in p.funcs.values() if f.get('cls') == SY and f['sn'] in ops}
    eng0 = Engine(p, Client())
    for fn in list(p.funcs.values()):
        if fn.get('cls') == SY and fn['sn'] in ops: continue
        if not fn.get('blocks') or not any(c.get('fn') in want for c in calls(fn)): continue
        c = Use(p, False); e = Engine(p, c, 200000); res = e.run(fn); rep.engine(p, e)
        for s, v in res:
            n += 1; tr = s.trace(); ev = c.evs(s); state = {}
            def ob(rule, what, ok, msg, line=None): rep.ob(rule, '%s: %s' % (fn['n'], what), ok, msg, fn, line, tr)
            for x in ev:
                if x[0] == 'startBarrier':
                    ob('C19.bracket', 'a barrier is entered once', state.get(x[1]) is None, 'entered again while inside', x[5]); state[x[1]] = 'in'
                elif x[0] == 'waitBarrier':
                    ob('C19.bracket', 'the wait belongs to a started barrier', state.get(x[1]) == 'in', 'waits without having started the barrier', x[5]); state[x[1]] = 'out'
                elif x[0] == 'endBarrier':
                    ob('C19.bracket', 'the end belongs to a completed wait', state.get(x[1]) == 'out', 'ends a barrier it has not waited for', x[5]); state[x[1]] = None
                elif x[0] == 'failed': state[x[2]] = None
            ob('C19.bracket', 'the barrier is ended on every path', not any(state.values()), 'returns inside of the barrier')
            if fn.get('cls') != SY: continue
            ok = eng0.decide(s, truth(v)); fail = any(x[0] == 'failed' for x in ev)
            ob('C19.error', 'succeeds exactly if every step succeeded', ok is (not fail), 'returns %s although %s' % (show(v), 'a step failed' if fail else 'every step succeeded'))
            N = [i for i, q in enumerate(fn['params']) if q['n'] and i == (1 if fn['sn'] == 'broadcast' else 0)]
            for x in ev:
                if x[0] == 'waitBarrier': ob('C19.bracket', 'waits for the number of threads it was given', bool(N) and x[2][0] == P(fn, N[0]), 'waits for %s' % show(x[2][0]), x[5])
            if fn['sn'] == 'broadcast':
                isroot = cmp('==', P(fn, 2), P(fn, 3)); r = eng0.decide(s, isroot)
                phase = 0
                for x in ev:
                    if x[0] == 'startBarrier': phase = 1
                    if x[0] == 'waitBarrier':
                        phase = 2
                        a = x[2][1] if len(x[2]) > 1 else ZERO
                        la = eng0.decide(s, truth(a))
                        ob('C19.broadcast', 'the root leaves last, the others do not', la is not None and la is r, 'a thread with root=%s waits with last=%s' % (r, la), x[5])
                    if x[0] == 'endBarrier': phase = 3
                    if x[0] == 'w' and x[1] == F('m_data'):
                        ob('C19.broadcast', 'the value is published by the root only, before it waits', r is True and phase == 1, 'written by a thread with root=%s in phase %d' % (r, phase), x[4])
                        ob('C19.broadcast', 'the value of the root is published', x[2] == ('&', dataloc(fn)) or x[2] == P(fn, 0), 'publishes %s' % show(x[2]), x[4])
                    elif x[0] == 'w' and x[1][0] != 'v':
                        ob('C19.broadcast', 'the value is taken over after the wait, before the barrier is ended', phase == 2, 'written in phase %d' % phase, x[4])
                pub = [x for x in ev if x[0] == 'w' and x[1] == F('m_data')]
                if ok and r is not False: ob('C19.broadcast', 'the root publishes its value', bool(pub), 'nothing is published')
                ob('C19.broadcast', 'root and other threads are told apart', r is not None or not ok, 'no comparison of the thread with the root')
                if ok and r is False:
                    got = s.store.get(dataloc(fn))
                    ob('C19.broadcast', 'every other thread takes over the published value', got == ('i', ('d', S('published'))), 'the data becomes %s' % (show(got) if got else 'unchanged'))
    return n

def dataloc(fn):
    """the variable behind the reference parameter"""
    v = P(fn, 0)
    if v[0] == 'i' and v[1][0] == 'd': return v[1]
    return ('d', v)

def plain(v):
    """printed value with the object it belongs to removed"""
    return re.sub(r'\(\*this(\.\w+)?\)\.|this\.', '', show(v))

def users(rep, p):
    """every barrier object: all uses name the same group of threads and number it accordingly"""
    n = 0
    base = {f['id'] for f in p.funcs.values() if f.get('cls') == SY and f['sn'] in ('barrier', 'broadcast', 'waitBarrier')}
    ref = {}
    for nm in ('totalThreads', 'totalDomains', 'threadId', 'domainId'):
        for fn in p.fns('numa::Numa::' + nm):
            c = Use(p, True); e = Engine(p, c); r = e.run(fn)
            vals = {v for s, v in r}
            if len(vals) == 1: ref[nm] = vals.pop()
    if len(ref) != 4: raise AnalysisBroken('thread and domain numbers of numa::Numa are not plain values')
    groups = {}
    seen = set()
    for fn in list(p.funcs.values()):
        if fn.get('cls') == SY or not fn.get('blocks') or not any(c.get('fn') in base for c in calls(fn)): continue
        if not (fn.get('cls') or '').startswith('numa::'): continue
        c = Use(p, True); e = Engine(p, c, 200000); res = e.run(fn); rep.engine(p, e)
        for s, v in res:
            tr = s.trace(); ev = c.evs(s)
            for x in ev:
                if x[0] not in ('barrier', 'broadcast', 'waitBarrier'): continue
                n += 1
                def ob(what, ok, msg): rep.ob('C19.group', '%s: %s' % (fn['n'], what), ok, msg, fn, x[5], tr)
                same = lambda a, nm: plain(a) == plain(ref[nm])
                kind = 'threads' if same(x[2][0], 'totalThreads') else 'domains' if same(x[2][0], 'totalDomains') else None
                ob('the barrier waits for all threads or all domains', kind is not None, 'waits for %s' % show(x[2][0]))
                if kind is None: continue
                groups.setdefault((fn['cls'], lockname(x[1])), {}).setdefault(kind, (fn, x[5], tr))
                if x[0] == 'broadcast':
                    ob('participants are numbered by %s' % ('threadId()' if kind == 'threads' else 'domainId()'), same(x[2][1], 'threadId' if kind == 'threads' else 'domainId'), 'numbered by %s' % show(x[2][1]))
                    ps = [i for i, q in enumerate(fn['params']) if q['n'] and i == 1]
                    if fn['sn'] == 'broadcast': ob('the root is the one given', len(x[2]) > 2 and x[2][2] == P(fn, 1), 'root is %s' % (show(x[2][2]) if len(x[2]) > 2 else '?'))
                    if fn['sn'] == 'broadcast': ob('the data is the one given', x[3] is not None and x[3] == dataloc(fn), 'broadcasts %s' % (showloc(x[3]) if x[3] else '?'))
            bc = [x for x in ev if x[0] in ('barrier', 'broadcast')]
            if fn['sn'] in ('broadcast', 'barrier'):
                fail = any(x[0] == 'failed' for x in ev); z = Engine(p, Client()).decide(s, cmp('==', v, ZERO))
                rep.ob('C19.error', '%s: a failing barrier is reported' % fn['n'], z is (not fail), 'returns %s' % show(v), fn, trace=tr)
                rep.ob('C19.group', '%s: takes part in exactly one barrier' % fn['n'], len(bc) == 1, '%d barriers' % len(bc), fn, trace=tr)
    for (cls, name), ks in groups.items():
        rep.ob('C19.group', '%s::%s is used by one group of threads' % (cls, name), len(ks) == 1, 'used for %s' % ' and '.join(sorted(ks)), *([ks[sorted(ks)[0]][0]] if ks else []))
    return n

def run(rep):
    rep.rule('C19.lock', 'the monitor mutex is taken blocking, held in every step and released on every failing path')
    rep.rule('C19.wait', 'a thread waits only with the mutex, after seeing that the condition does not hold, and checks it again after every wake-up')
    rep.rule('C19.round', 'a new round is entered only when the previous one has ended')
    rep.rule('C19.leave', 'a thread leaves only when all have arrived, a last thread only when all others have left')
    rep.rule('C19.complete', 'the flag is set exactly by the thread that completes the barrier')
    rep.rule('C19.end', 'the flag is reset exactly by the last thread to leave')
    rep.rule('C19.count', 'each thread is counted once in and once out, without a wait in between the two counters')
    rep.rule('C19.wake', 'each step that makes a waiting condition true wakes all threads waiting for it')
    rep.rule('C19.error', 'a failing call is reported and leaves no lock held')
    rep.rule('C19.init', 'a new barrier is empty')
    rep.rule('C19.bracket', 'start, wait and end are used in this order, on every path')
    rep.rule('C19.broadcast', 'the root publishes before waiting and leaves last; the others copy before the end')
    rep.rule('C19.group', 'one barrier object synchronises one group of threads')
    t = {}
    for cfg in (['mt'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        if SY not in p.classes: continue
        for k, v in (('paths of the barrier', monitor(rep, p)), ('paths through users of start/wait/end', brackets(rep, p)), ('uses of barrier objects', users(rep, p))):
            t[k] = t.get(k, 0) + v
    for k, m in (('paths of the barrier', 12), ('paths through users of start/wait/end', 8), ('uses of barrier objects', 4)): rep.floor(k, t.get(k, 0), m)
