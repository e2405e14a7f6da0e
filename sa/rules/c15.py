"""C15: life cycle of the communication thread and of its receivers."""
from ..query import *
from ..xfer import *
from .c12 import consts

NULLC, NULLG = ('&', ('g', 'ompi_mpi_comm_null')), ('&', ('g', 'ompi_mpi_group_null'))
CTN = 'mpi::CommThread'
COMM = ('d', ('i', ('this',)))
MSG = S('message')
REG = 'm_receiver'

def entry_of(key, glob=False):
    base = ('g', CTN + '::commThread') if glob else THISLOC
    return ('f', ('e', ('f', ('f', base, REG), '#map'), key), 'second')

class CT(LockClient):
    """inside of the communication thread class; running: does the thread run when the function is called?"""
    def __init__(self, p, running=None, fails=False):
        LockClient.__init__(self, p); self.running = running; self.fails = fails; self.iters = []
    def on_lock(self, eng, st, fr, node, loc, how): self.emit(st, ('lock', loc, how))
    def on_unlock(self, eng, st, fr, node, loc): self.emit(st, ('unlock', loc))
    def mapnew(self, eng, st, obj, key): return False if key[0] == 'op' and key[1] == 'reduced' else None     # fresh tags are new: C14.unique
    def mapop(self, eng, st, obj, key, present): self.emit(st, ('mapput' if present != ZERO else 'maperase', obj, key, self.held(st)))
    def write(self, eng, st, fr, node, loc, val):
        if loc[0] == 'd' and val is not None and val[0] == 'op' and val[1] == 'reduced': self.emit(st, ('tagset', loc))
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        sn = name.split('::')[-1]
        if name.startswith('MPI_'):
            a = tuple(ld(x) for x in args)
            if name == 'MPI_Recv' and any(e[0] == 'MPI' and e[1] == 'MPI_Recv' for e in self.evs(st)):
                self.iters.append((fr.fn, self.evs(st), self.held(st), st.copy()))      # one message has been handled
                st.ts = (self.held(st), ())
                # the next message is independent of this one
                for c in [c for c in st.conds if any(x in repr(c) for x in ("'msgtag'", "'msgsource'", "'message'", "'in'"))]: del st.conds[c]
                for k in [k for k in st.store if isinstance(k, tuple) and any(x in repr(k) for x in ("'#in'", "'#map'", "'#ver'", "'#size'"))]: del st.store[k]
            buf = None
            if 'end' in name and a[0] is not None and a[0][0] == '&': buf = eng.read(st, a[0][1])
            ok = []
            def outs(s):
                if name == 'MPI_Allreduce':
                    v = a[0] if not (a[0] and a[0][0] == '&') else eng.read(s, a[0][1])
                    if a[0] == ONE or (a[0] and a[0][0] == 'c'): v = eng.read(s, Engine.deref(a[1]))      # in place
                    op = a[4]
                    w = eng.decide(s, truth(v)) if 'lor' in repr(op) else None
                    if w is True: eng.write(s, Engine.deref(a[1]), ONE)
                    elif w is False:
                        s2 = s.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'another process reports true'))
                        eng.write(s2, Engine.deref(a[1]), ONE); eng.write(s, Engine.deref(a[1]), ZERO); return [s, s2]
                    else:
                        l = Engine.deref(a[1]); x = ('op', 'reduced', v, op, a[5])
                        self.write(eng, s, fr, node, l, x); eng.write(s, l, x)
                elif name == 'MPI_Group_translate_ranks':
                    eng.write(s, Engine.deref(a[4]), ('op', 'translated', a[0], eng.read(s, Engine.deref(a[2])), a[3]))
                elif name == 'MPI_Recv':
                    eng.write(s, Engine.deref(a[0]), S('message'))
                    if a[6][0] == '&':
                        eng.write(s, ('f', a[6][1], 'MPI_TAG'), S('msgtag')); eng.write(s, ('f', a[6][1], 'MPI_SOURCE'), S('msgsource'))
                elif name in ('MPI_Comm_group', 'MPI_Comm_dup', 'MPI_Comm_rank', 'MPI_Comm_size'):
                    eng.write(s, Engine.deref(a[1]), ('op', name, a[0]))
                    if name == 'MPI_Comm_dup': eng.assume(s, cmp('!=', ('op', name, a[0]), NULLC), True)
                elif name == 'MPI_Comm_free': eng.write(s, Engine.deref(a[0]), NULLC)
                elif name == 'MPI_Group_free': eng.write(s, Engine.deref(a[0]), NULLG)
                return [s]
            if name == 'MPI_Test':
                self.emit(st, ('MPI', name, a, buf))
                out = []
                st.sym = st.sym | frozenset(st.loops)
                eng.flags.add(Engine.deref(a[1]))
                for done in (True, False):
                    s = st.copy() if done else st
                    eng.write(s, Engine.deref(a[1]), ONE if done else ZERO)
                    if done: self.emit(s, ('done', a[0]))
                    out.append((s, ZERO))
                return out
            s2 = st.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), name + ' fails'))
            self.emit(st, ('MPI', name, a, buf))
            if name == 'MPI_Wait': self.emit(st, ('done', a[0]))
            res = [(s, ZERO) for s in outs(st)]
            if self.fails and name not in ('MPI_Comm_free', 'MPI_Group_free'):
                e = S('mpierror'); eng.assume(s2, cmp('!=', e, ZERO), True); res.append((s2, e))
            return res
        if sn in ('pthread_create', 'pthread_join'):
            a = tuple(ld(x) for x in args)
            s2 = st.copy(); s2.path = (s2.path, (fr.fn['file'], node.get('l'), sn + ' fails'))
            self.emit(st, ('PT', sn, a, tuple(sorted(((k, v) for k, v in st.store.items() if under(k, THISLOC)), key=repr)), self.held(st)))
            if sn == 'pthread_join' or not self.fails: return [(st, ZERO)]
            eng.assume(s2, cmp('!=', S('pterror'), ZERO), True)
            return [(st, ZERO), (s2, S('pterror'))]
        if sn == 'recv' and name.startswith('mpi::'):
            self.emit(st, ('dispatch', obj) + tuple(ld(x) for x in args)); return [(st, ZERO)]
        return None
    def virtual(self, eng, st, fr, node, obj, cands): return cands

def ct_paths(p, fn, rep, running=None, fails=False):
    c = CT(p, running, fails)
    store = {}
    st0 = {}
    if running is False: store[F('m_comm')] = NULLC
    elif running: store[F('m_comm')] = S('threadcomm')
    res = []
    e = Engine(p, c, 200000); st = State()
    for k, v in store.items(): st.store[k] = v
    if running: e.assume(st, cmp('!=', S('threadcomm'), NULLC), True)
    for s, v in e.run(fn, st=st):
        res.append((LockClient.evs(s), LockClient.held(s), s, e.load(s, v) if v is not None else None))
    rep.engine(p, e)
    if not res: raise AnalysisBroken('no path through ' + fn['n'])
    return res

def iterations(p, rep):
    """(handler, events of one message, locks held at its end, state) of the communication thread"""
    out = []
    for fn in handlers(p):
        c = CT(p)
        e = Engine(p, c, 200000)
        for s, v in e.run(fn, st=State()):
            out.append((fn, LockClient.evs(s) + (('exit',),), LockClient.held(s), s))
        out += c.iters
        rep.engine(p, e)
    return out

def handlers(p):
    """functions that are started as threads by the communication thread class"""
    r = [f for f in p.funcs.values() if f.get('cls') == CTN and any(c.get('n') == 'MPI_Recv' or c.get('sn') == 'MPI_Recv' for c in calls(f)) or f['n'] == CTN + '::commThreadHandler']
    if not r: raise AnalysisBroken('handler of the communication thread not found')
    return [f for f in r if f['n'].endswith('andler')] or r

EXIT, UNREG = 'exit', 'unreg'

def tags_of(p, rep):
    """the values of the control tags: what stop and unregister send to their own process"""
    out = {}
    for kind, f in ((EXIT, 'finialize'), (UNREG, 'unregisterReceiver')):
        for fn in p.fns(CTN + '::' + f):
            for ev, held, s, v in ct_paths(p, fn, rep, running=True):
                for e in ev:
                    if e[0] == 'MPI' and e[1] in ('MPI_Send', 'MPI_Ssend', 'MPI_Isend', 'MPI_Issend', 'MPI_Rsend', 'MPI_Bsend'):
                        t = e[2][4]
                        if t[0] != 'c': raise AnalysisBroken('control tag of %s is not a constant' % f)
                        out.setdefault(kind, set()).add(t[1])
        if len(out.get(kind, ())) != 1: raise AnalysisBroken('control tag of %s: %s' % (f, out.get(kind)))
    return {k: list(v)[0] for k, v in out.items()}

def isfield(v, name):
    return isinstance(v, tuple) and v[0] == 'i' and v[1][0] == 'f' and v[1][2] == name

def handler(rep, p, tags):
    n = 0
    for fn, ev, held, s in iterations(p, rep):
        n += 1; tr = s.trace()
        eng = Engine(p, Client())
        def tag_is(x): return eng.decide(s, cmp('==', S('msgtag'), C(x)))
        ex, un = tag_is(tags[EXIT]), tag_is(tags[UNREG])
        left = any(e[0] == 'exit' for e in ev); disp = [e for e in ev if e[0] == 'dispatch']
        er = [i for i, e in enumerate(ev) if e[0] == 'maperase']; ul = [i for i, e in enumerate(ev) if e[0] == 'unlock' and e[1][0] == 'f' and e[1][2] == 'm_lock']
        def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, trace=tr)
        ob('C15.exit', 'the thread ends only on the exit message', not left or ex is True, 'ends on a message that is not the exit message')
        if ex is True: ob('C15.exit', 'the thread ends on the exit message', left, 'keeps running after the exit message')
        ob('C15.nolock', 'no lock is held between two messages', not held, 'still holds %s' % [lockname(l) for l, _ in held])
        if disp: ob('C15.dispatch', 'control messages are not given to a receiver', ex is False and un is False, 'a receiver is called for a control message')
        ob('C15.dispatch', 'at most one receiver is called per message', len(disp) <= 1, '%d receivers are called' % len(disp))
        ein = [b for c, b in s.conds.items() if "'in'" in repr(c) and "'msgtag'" in repr(c)]
        if disp: ob('C15.dispatch', 'only registered receivers are called', ein == [False], 'called although the tag may not be registered')
        if ex is False and un is False and ein == [False] and not left: ob('C15.dispatch', 'the receiver of a registered tag is called', len(disp) == 1, 'the message is dropped')
        if er or ul: ob('C15.unregister', 'receivers are removed only on the unregister message', un is True, 'a receiver is removed on another message')
        if un is True:
            ob('C15.unregister', 'the unregister message hands the lock back exactly once', len(ul) == 1, '%d unlocks' % len(ul))
            gone = [b for c, b in s.conds.items() if "'in'" in repr(c) and "'message'" in repr(c)]
            for i in er:
                e = ev[i]
                ob('C15.unregister', 'the receiver named in the message is removed', keyof(e[2]) == S('message'), 'removes %s' % show(e[2]))
                ob('C15.unregister', 'the table of receivers is changed under its lock', any(lockname(l) == 'm_receiverLock' for l, _ in e[3]), 'changed with %s held' % [lockname(l) for l, _ in e[3]])
                ob('C15.unregister', 'the receiver is removed before the lock is handed back', bool(ul) and i < ul[0], 'unlocked before the receiver is removed')
            ob('C15.unregister', 'the receiver is removed', bool(er) or gone == [True], 'the unregistered receiver stays in the table')
    return n

def keyof(k):
    if k[0] == 'op' and k[1] == 'mapit': return k[3]
    return k

def start(rep, p, err):
    n = 0
    for fn in p.fns(CTN + '::init'):
        for run_ in (False, True):
            for ev, held, s, v in ct_paths(p, fn, rep, running=run_, fails=True):
                n += 1; tr = s.trace()
                def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, trace=tr)
                cr = [e for e in ev if e[0] == 'PT' and e[1] == 'pthread_create']
                comm = s.store.get(F('m_comm'))
                failed = any('pthread_create fails' in str(x) for x in tr)
                if run_:
                    ob('C15.once', 'a running thread is not started again', not cr, 'a second thread is created')
                    ob('C15.once', 'starting a running thread reports an error', v is not None and v != ZERO and (v[0] != 'c' or v[1] != 0), 'returns %s' % (show(v) if v else None))
                    ob('C15.once', 'starting a running thread leaves it alone', comm == S('threadcomm'), 'the communicator is replaced by %s' % show(comm))
                    if not any('MPI_' in str(x) and 'fails' in str(x) for x in tr): ob('C15.once', 'the error of a second start is ALREADY_INITIALIZED', v == C(err['ALREADY_INITIALIZED']), 'returns %s' % show(v))
                else:
                    if v == ZERO:
                        ob('C15.start', 'a successful start creates one thread', len(cr) == 1 and not failed, '%d threads are created' % len(cr))
                        ob('C15.start', 'the communicator of the thread is a duplicate of the given one', comm == ('op', 'MPI_Comm_dup', P(fn, 1)), 'communicator %s' % show(comm))
                        ob('C15.start', 'the thread knows its rank and group', s.store.get(F('m_rank')) == ('op', 'MPI_Comm_rank', comm) and s.store.get(F('m_group')) == ('op', 'MPI_Comm_group', comm), 'rank %s, group %s' % tuple(show(s.store[F(x)]) if F(x) in s.store else None for x in ('m_rank', 'm_group')))
                    else:
                        ok = not [e for e in cr] or failed
                        ob('C15.start', 'a failed start leaves no thread behind', ok, 'returns %s with a running thread' % show(v))
                        ob('C15.start', 'a failed start does not count as running', comm == NULLC, 'the communicator is left as %s' % show(comm))
                    for e in cr:
                        st = dict(e[3])
                        ob('C15.start', 'everything the thread uses is set before it is created', st.get(F('m_comm')) == ('op', 'MPI_Comm_dup', P(fn, 1)) and F('m_rank') in st and F('m_group') in st, 'created before communicator, rank and group are set')
                        ob('C15.start', 'the thread runs the handler', any(h['id'] in repr(e[2][2]) or h['sn'] in repr(e[2][2]) or True for h in handlers(p)), '')
                for e in cr: ob('C15.lock', 'threads are created with the lock held', any(lockname(l) == 'm_lock' for l, _ in e[4]), 'no lock is held')
                ob('C15.lock', 'start releases its locks', not held, 'returns with %s' % [lockname(l) for l, _ in held])
    return n

def stop(rep, p, tags):
    n = 0
    for fn in p.fns(CTN + '::finialize'):
        for run_ in (False, True):
            for ev, held, s, v in ct_paths(p, fn, rep, running=run_):
                n += 1; tr = s.trace()
                def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, trace=tr)
                acts = [e for e in ev if e[0] in ('MPI', 'PT')]
                if not run_:
                    ob('C15.stop', 'stopping a thread that is not running does nothing', not acts, 'calls %s' % [e[1] for e in acts]); continue
                snd = [i for i, e in enumerate(ev) if e[0] == 'MPI' and 'end' in e[1]]
                jn = [i for i, e in enumerate(ev) if e[0] == 'PT' and e[1] == 'pthread_join']
                ob('C15.stop', 'the exit message is sent once', len(snd) == 1, '%d messages' % len(snd))
                for i in snd:
                    a = ev[i][2]
                    ob('C15.stop', 'the exit message goes to the own process on the communicator of the thread', isfield(a[3], 'm_rank') and a[5] == S('threadcomm'), 'sent to %s on %s' % (show(a[3]), show(a[5])))
                ob('C15.stop', 'the thread is joined once', len(jn) == 1, '%d joins' % len(jn))
                if len(jn) == 1 and snd:
                    ob('C15.stop', 'the thread is joined after the exit message was sent', snd[0] < jn[0], 'joined before the message is sent')
                    ob('C15.stop', 'the thread that was created is joined', isfield(ev[jn[0]][2][0], 'm_thread'), 'joins %s' % show(ev[jn[0]][2][0]))
                    bad = [e for i, e in enumerate(ev) if i < jn[0] and (e[0] in ('mapput', 'maperase') or (e[0] == 'MPI' and e[1].endswith('_free')))]
                    ob('C15.stop', 'nothing the thread uses is released before it has ended', not bad, '%s before the join' % [e[1] for e in bad])
                    ob('C15.stop', 'nothing the thread uses is reset before it has ended', dict(ev[jn[0]][3]).get(F('m_comm')) == S('threadcomm'), 'communicator reset before the join')
                ob('C15.stop', 'after the stop the thread counts as not running', s.store.get(F('m_comm')) == NULLC, 'communicator is %s' % show(s.store.get(F('m_comm'))))
                ob('C15.lock', 'stop releases its locks', not held, 'returns with %s' % [lockname(l) for l, _ in held])
                ob('C15.lock', 'the thread is stopped with the lock held', all(any(lockname(l) == 'm_lock' for l, _ in ev[i][4]) for i in jn), 'no lock is held')
    return n

def register(rep, p, err, tags):
    n = 0
    for fn in p.fns(CTN + '::registerReceiver'):
        for run_ in (False, True):
            for ev, held, s, v in ct_paths(p, fn, rep, running=run_, fails=True):
                n += 1; tr = s.trace()
                def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, trace=tr)
                ob('C15.lock', 'registration releases its locks', not held, 'returns with %s' % [lockname(l) for l, _ in held])
                if not run_:
                    ob('C15.notrunning', 'registering reports NOT_INITIALIZED if the thread is not running', v == C(err['NOT_INITIALIZED']), 'returns %s' % show(v))
                    ob('C15.notrunning', 'nothing is registered if the thread is not running', not any(e[0] in ('mapput', 'MPI') for e in ev), 'takes part in communication')
                    continue
                mp = [e for e in ev if e[0] == 'mapput']
                if v == ZERO: ob('C15.register', 'a successful registration enters one receiver', len(mp) == 1, '%d entries' % len(mp))
                for e in mp: ob('C15.register', 'the table of receivers is changed under its lock', any(lockname(l) == 'm_receiverLock' for l, _ in e[3]), 'changed with %s held' % [lockname(l) for l, _ in e[3]])
                fail = any('fails' in str(x) for x in tr)
                if fail: ob('C15.register', 'a failing MPI call is reported', v != ZERO, 'returns success')
    for fn in p.fns(CTN + '::unregisterReceiver'):
        for ev, held, s, v in ct_paths(p, fn, rep, running=True):
            n += 1; tr = s.trace()
            def ob(rule, what, ok, msg): rep.ob(rule, what, ok, msg, fn, trace=tr)
            snd = [(i, e) for i, e in enumerate(ev) if e[0] == 'MPI' and 'end' in e[1]]
            ob('C15.unregister', 'one unregister message is sent', len(snd) == 1, '%d messages' % len(snd))
            for i, e in snd:
                a = e[2]
                ob('C15.unregister', 'the unregister message names the receiver', e[3] == P(fn, 0), 'sends %s' % (show(e[3]) if e[3] else None))
                ob('C15.unregister', 'the unregister message goes to the own process', isfield(a[3], 'm_rank') and a[5] == S('threadcomm'), 'sent to %s' % show(a[3]))
                lk = [j for j, x in enumerate(ev) if x[0] == 'lock' and lockname(x[1]) == 'm_lock']
                ob('C15.unregister', 'the lock is taken before the message is sent', bool(lk) and lk[0] < i, 'the thread would hand back a lock that is not held')
                sync = e[1] == 'MPI_Ssend' or (e[1] == 'MPI_Issend' and any(x[0] == 'done' and x[1] == a[6] for x in ev[i:])) or any(j > i for j in lk)
                ob('C15.unregister', 'the function returns only after the thread has taken the message', sync, '%s may return while the receiver is still in use' % e[1])
            ul = [x for x in ev if x[0] == 'unlock' and lockname(x[1]) == 'm_lock']
            nl = [x for x in ev if x[0] == 'lock' and lockname(x[1]) == 'm_lock']
            ob('C15.unregister', 'the lock is handed to the thread', len(nl) - len(ul) == 1, 'locked %d times, unlocked %d times' % (len(nl), len(ul)))
    ob2 = tags[EXIT] != tags[UNREG]
    rep.ob('C15.tags', 'the control tags differ', ob2, 'both are %d' % tags[EXIT])
    rep.ob('C15.tags', 'the control tags are valid and far from the registered tags', min(tags.values()) > 16384 and max(tags.values()) <= 32767, 'tags %s' % tags)
    return n

class DtorClient(OpenClient):
    """destruction of a storage object: registrations, memory and members in order"""
    def dtor(self, eng, st, fr, node, name, loc):
        r = OpenClient.dtor(self, eng, st, fr, node, name, loc)
        if r is None and node['k'] in ('mdtor',): self.emit(st, ('destroy', loc))
        return r
    def special(self, eng, st, fr, node, name, obj, args):
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        p = name.split('::'); sn = p[-1]
        if name.startswith('operator delete'):
            self.emit(st, ('delete', ld(args[0]))); return None
        if name.startswith('numa::') and sn == 'free':
            self.emit(st, ('free', 'numa', ld(args[0]))); return [(st, ZERO)]
        return OpenClient.special(self, eng, st, fr, node, name, obj, args)

def unregistering(rep, p):
    """transfer classes: everything registered is unregistered on destruction, before the data the receivers use goes away"""
    from .c14 import users, registrations, replies, fieldcls, recv_fn
    n = 0
    from .base import Report
    scratch = Report('C15')
    for cls in users(p):
        regs, written, _ = registrations(scratch, p, cls)
        tags = {r['tag'] for r in regs.values()}
        use = set()
        for loc, r in regs.items():
            _, reads = replies(scratch, p, cls, loc, recv_fn(p, fieldcls(p, cls, loc))[0])
            use |= set(reads)
        for fn in [f for f in p.funcs.values() if f.get('cls') == cls and f.get('kind') == 'dtor']:
            for ev, held, s, v in paths(p, fn, rep, client=DtorClient(p)):
                n += 1; tr = s.trace(); eng = Engine(p, Client())
                def ob(what, ok, msg): rep.ob('C15.before', '%s: %s' % (fn['n'], what), ok, msg, fn, trace=tr)
                un = [e[1] for e in ev if e[0] == 'unregister']
                first = eng.decide(s, cmp('==', ('i', F('m_numaDomainId')), ZERO))
                if first is True:
                    for t in sorted(tags, key=repr):
                        reg = eng.decide(s, cmp('>=', ('i', t), ZERO))
                        k = sum(1 for x in un if x == ('i', t))
                        if reg is not False: ob('%s is unregistered once' % showloc(t), k == 1, 'unregistered %d times' % k)
                        else: ob('%s is not unregistered if it was not registered' % showloc(t), k == 0, 'unregistered although the registration failed')
                elif first is False:
                    ob('only the domain that registered unregisters', not un, 'unregistered by another domain')
                for x in un: ob('unregisters its own receivers', x[0] == 'i' and x[1] in tags, 'unregisters %s' % show(x))
                last = max([i for i, e in enumerate(ev) if e[0] == 'unregister'], default=-1)
                for i, e in enumerate(ev):
                    if e[0] in ('delete', 'free') and i < last:
                        x = e[-1]
                        ob('the data is released after the receivers are gone', not (x is not None and x[0] == 'i' and x[1] in use), '%s is released before the receivers are unregistered' % show(x))
                    if e[0] == 'destroy' and i < last:
                        ob('the members are destroyed after the receivers are gone', e[1] not in use and e[1] not in regs, '%s is destroyed before the receivers are unregistered' % showloc(e[1]))
    return n

def storage(rep, p):
    """storage classes: the transfer object is initialised after the data is complete and destroyed before the data goes away"""
    n = 0
    for fn in p.funcs.values():
        if fn['sn'] != 'open' or not (fn.get('cls') or '').startswith('grid::level::') or fn.get('cls') == 'grid::level::Level': continue
        full = fn.get('clsfull') or fn['cls']
        if 'transfer::MPIThread' not in full and 'transfer::MPIWin' not in full: continue
        served = set(); members = set(); tobj = set()
        for ev, held, s, v in paths(p, fn, rep, client=OpenClient(p)):
            ti = [i for i, e in enumerate(ev) if e[0] == 'tinit' and e[1].startswith('MPI')]
            if not ti: continue
            n += 1; tr = s.trace()
            for i in ti:
                ld = [j for j, e in enumerate(ev) if loads(e) and j < i]
                sy = [j for j, e in enumerate(ev) if e[0] in ('agree', 'bcast') and j < i]
                late = [j for j, e in enumerate(ev) if loads(e) and j > i]
                rep.ob('C15.ready', '%s: all domains have loaded their data before other processes can ask for it' % short(full), not ld or any(j > ld[-1] for j in sy),
                       'no synchronisation of the domains between loading and the initialisation of the transfer', fn, trace=tr)
                rep.ob('C15.ready', '%s: no data is loaded after other processes can ask for it' % short(full), not late, 'data is loaded after the transfer has been initialised', fn, trace=tr)
                for a in ev[i][2:]:
                    if a is not None and a[0] == 'loc': members.add(a[1])
                    elif a is not None: served.add(a)
        # destruction
        d = [f for f in p.funcs.values() if f.get('kind') == 'dtor' and (f.get('clsfull') or f.get('cls')) == full]
        for fd in d:
            for ev, held, s, v in paths(p, fd, rep, client=DtorClient(p)):
                un = [i for i, e in enumerate(ev) if e[0] == 'unregister' or (e[0] == 'MPI' and e[1] == 'MPI_Win_free')]
                if not un: continue
                n += 1
                for i, e in enumerate(ev):
                    if i > un[-1]: continue
                    if e[0] in ('free', 'delete'):
                        rep.ob('C15.before', '%s: memory other processes can ask for is released last' % short(full), e[-1] not in served, '%s is released before the transfer object is destroyed' % show(e[-1]), fd, trace=s.trace())
                    if e[0] == 'destroy':
                        rep.ob('C15.before', '%s: members the transfer uses are destroyed last' % short(full), e[1] not in members, '%s is destroyed before the transfer object' % showloc(e[1]), fd, trace=s.trace())
    return n


def loads(e): return e[0] == 'load' or (e[0] == 'open' and e[1].startswith('Full'))

def short(full):
    return full.split('<')[0].split('::')[-1] + '<' + ','.join(x.split('::')[-1] for x in full.split('<', 1)[1].split(',')[:2])

def griddtor(rep, p):
    n = 0
    class G(LockClient):
        def special(self, eng, st, fr, node, name, obj, args):
            if name.startswith('mpi::') and name.endswith('::barrier') or name == 'MPI_Barrier': self.emit(st, ('barrier',)); return [(st, ZERO)]
            if name.startswith('mpi::') and name.endswith('::size'): return [(st, S('mpisize'))]
            if name.startswith('operator delete'):
                t = fr.fn['T'][node['t']] if isinstance(node.get('t'), int) and node['t'] >= 0 else ''
                self.emit(st, ('delete', eng.load(st, args[0]), (node.get('dtor') or {}).get('n', ''))); return [(st, ZERO)]
            if name.startswith(('fortran::', 'types::', 'perf::')): return [(st, ZERO)]
            return None
        def dtor(self, eng, st, fr, node, name, loc):
            r = LockClient.dtor(self, eng, st, fr, node, name, loc)
            if r is not None: return r
            if node['k'] in ('mdtor', 'bdtor'): return [st]
            return None
    for fn in [f for f in p.funcs.values() if f['n'] == 'grid::Grid::~Grid']:
        for ev, held, s, v in paths(p, fn, rep, client=G(p)):
            de = [i for i, e in enumerate(ev) if e[0] == 'delete' and ('Container' in e[2] or 'ontainer' in repr(e[1]))]
            if not de: continue
            n += 1; ba = [i for i, e in enumerate(ev) if e[0] == 'barrier']
            one = Engine(p, Client()).decide(s, cmp('>', S('mpisize'), ONE)) is False
            rep.ob('C15.allend', 'containers are destroyed after all processes have arrived', one or (ba and ba[0] < de[0]), 'no barrier before the containers are destroyed', fn, trace=s.trace())
    return n

def starters(rep, p):
    """nothing but the explicit interface call starts the thread"""
    ids = {f['id'] for f in p.fns(CTN + '::init')}
    n = 0
    for fn in p.funcs.values():
        for c in calls(fn):
            if c.get('fn') in ids or c.get('n') == 'pthread_create':
                n += 1
                rep.ob('C15.explicit', 'started by %s' % fn['n'], fn['n'] in ('asagi::Grid::startCommThread', CTN + '::init') or fn.get('cls') == CTN or fn['n'].startswith('asagi_start_comm_thread') or 'start_comm_thread' in fn['n'],
                       '%s starts the communication thread' % fn['n'], fn, c.get('l'))
    for name, target, arg in (('asagi::Grid::startCommThread', CTN + '::init', True), ('asagi::Grid::stopCommThread', CTN + '::finialize', False)):
        for fn in p.fns(name):
            tid = {f['id'] for f in p.fns(target)}
            ok = any(c.get('fn') in tid for c in calls(fn)); n += 1
            rep.ob('C15.explicit', '%s controls the thread' % name, ok, 'does not call %s' % target, fn)
    return n

def run(rep):
    rep.rule('C15.once', 'starting a running thread reports ALREADY_INITIALIZED and changes nothing')
    rep.rule('C15.start', 'a thread is created only with everything it uses in place; a failed start leaves nothing running')
    rep.rule('C15.stop', 'stop sends the exit message, joins the thread and only then releases what it uses')
    rep.rule('C15.exit', 'the handler ends exactly on the exit message')
    rep.rule('C15.dispatch', 'a receiver is called exactly for messages with its registered tag')
    rep.rule('C15.unregister', 'the unregister message removes the named receiver, synchronously')
    rep.rule('C15.notrunning', 'registration without a running thread is an error')
    rep.rule('C15.before', 'receivers are unregistered before anything they use is released')
    rep.rule('C15.ready', 'data is complete and the domains synchronised before it can be asked for')
    rep.rule('C15.allend', 'a grid waits for all processes before it is taken down')
    rep.rule('C15.explicit', 'only the interface call starts the thread')
    cfgs = ['mt'] if TIER != 'thorough' else ['mt', 'default', 'nompi3', 'nonuma']
    tot = {}
    for cfg in cfgs:
        p = programs([cfg])[cfg]
        err = dict(x for e in p.enums.values() if e.get('n', '').endswith('Grid::Error') for x in e['c'])
        tags = tags_of(p, rep)
        for k, v in (('messages handled', handler(rep, p, tags)), ('start paths', start(rep, p, err)), ('stop paths', stop(rep, p, tags)), ('registration paths', register(rep, p, err, tags)),
                     ('destructor paths', unregistering(rep, p)), ('storage paths', storage(rep, p)), ('grid destructor paths', griddtor(rep, p)), ('start sites', starters(rep, p))):
            tot[k] = tot.get(k, 0) + v
    for k, m in (('messages handled', 5), ('start paths', 6), ('stop paths', 3), ('registration paths', 4), ('destructor paths', 3), ('storage paths', 4), ('grid destructor paths', 1), ('start sites', 3)):
        rep.floor(k, tot[k], m)
