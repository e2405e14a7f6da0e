"""C14: requests and replies of the communication thread match.

For every class that registers receivers: receiver object -> tag field -> recv function. Each recv function is summarised
as its set of replies; every function that sends a request is summarised as the receives that follow it. Both sides are
expressed over the fields of the same object and compared.
"""
from ..query import *
from ..xfer import *
from .c29 import byparam
from .c12 import consts

SENDS = {'MPI_Send': None, 'MPI_Ssend': None, 'MPI_Rsend': None, 'MPI_Bsend': None, 'MPI_Isend': 6, 'MPI_Issend': 6, 'MPI_Irsend': 6}
RECVS = {'MPI_Recv': None, 'MPI_Irecv': 6}
PROBES = ('MPI_Iprobe', 'MPI_Probe')
PARENT = ('d', S('parent'))
CT = {'char': 'ompi_mpi_char', 'long': 'ompi_mpi_long', 'unsigned long': 'ompi_mpi_unsigned_long', 'int': 'ompi_mpi_int',
      'unsigned int': 'ompi_mpi_unsigned', 'unsigned char': 'ompi_mpi_unsigned_char', 'double': 'ompi_mpi_double', 'float': 'ompi_mpi_float',
      'signed char': 'ompi_mpi_signed_char', 'short': 'ompi_mpi_short', 'long long': 'ompi_mpi_long_long_int'}
LAX = {('char', 'ompi_mpi_signed_char'), ('char', 'ompi_mpi_byte'), ('unsigned char', 'ompi_mpi_byte'), ('unsigned long', 'ompi_mpi_unsigned_long_long'), ('long', 'ompi_mpi_int64_t'), ('unsigned long', 'ompi_mpi_uint64_t')}

class Cl(InitClient):
    """records which fields have been stored at each registration and which fields a function reads first"""
    def __init__(self, p):
        InitClient.__init__(self, p); self.first = {}
    def special(self, eng, st, fr, node, name, obj, args):
        if name == 'mpi::CommThread::registerReceiver':
            done = frozenset(k for k in st.store if under(k, THISLOC))
            self.emit(st, ('before', done))
        if name.startswith('mpi::') and name.endswith('::comm') and not args: return None
        if name.startswith('numa::') and name.endswith('::domainId'): return [(st, self.dom)]
        return InitClient.special(self, eng, st, fr, node, name, obj, args)
    dom = S('domainId')
    def read(self, eng, st, fr, node, loc):
        for l in through(loc):
            if l[0] == 'f' and (under(l, PARENT) or under(l, THISLOC)): self.first.setdefault(l, (fr.fn, node.get('l')))

def rename(x, a, b):
    """replace the object location a by b in a value"""
    def go(t):
        if t == a: return b
        if isinstance(t, tuple): return tuple(go(y) for y in t)
        return t
    return go(x)

def norm(v):
    return rename(v, PARENT, THISLOC)

def vartypes(p, fns):
    out = {}
    for fn in fns:
        for n in walk_nodes(fn):
            if n['k'] == 'decl' and 'd' in n:
                t = n.get('t')
                if isinstance(t, int) and t >= 0: out[str(n['d'])] = fn['T'][t]
    return out

def ctype(p, v, vt):
    """C type of the object a buffer pointer names, None if unknown"""
    if not isinstance(v, tuple) or v[0] != '&': return None
    l = v[1]
    if l[0] == 'v': return vt.get(str(l[2]))
    return None

def canon_t(t):
    return t.replace('const ', '').replace('volatile ', '').strip() if t else t

def mpiname(t):
    return t[1][1] if isinstance(t, tuple) and t[0] == '&' and t[1][0] == 'g' else None

def users(p):
    """classes that register receivers: [(class, [functions])]"""
    reg = {f['id'] for f in p.fns('mpi::CommThread::registerReceiver')}
    cls = {}
    for fn in p.funcs.values():
        if not fn.get('cls') or fn['cls'] == 'mpi::CommThread': continue
        if any(c.get('fn') in reg for c in calls(fn)): cls.setdefault(fn['cls'], []).append(fn)
    return cls

def recv_fn(p, cls):
    return [f for f in p.funcs.values() if f.get('cls') == cls and f['sn'] == 'recv' and len(f['params']) == 2]

def fieldcls(p, cls, loc):
    if loc == THISLOC: return cls
    if loc[0] == 'f' and loc[1] == THISLOC:
        for c in p.classes.values():
            if c['n'] == cls:
                for f in c['fields']:
                    if f['n'] == loc[2]: return c_type(c, f)
    return None
def c_type(c, f):
    t = f.get('t')
    return c['T'][t] if isinstance(t, int) and 'T' in c else str(t)

def registrations(rep, p, cls):
    """receiver location -> (tag field, fields stored before); checks the initialisation"""
    regs = {}; written = set(); n = 0
    for fn in p.fns(cls + '::init'):
        c = Cl(p); c.dom = ZERO
        for ev, held, s, v in paths(p, fn, rep, args=byparam(fn), client=c):
            tr = s.trace()
            if v == ZERO: written |= {k for k in s.store if under(k, THISLOC)}
            i = 0; mine = []
            while i < len(ev):
                if ev[i][0] == 'register':
                    done = ev[i - 1][1]
                    mine.append((ev[i][1], ev[i][2], ev[i][3], done, i))
                i += 1
            if v == ZERO:
                locs = [m[1] for m in mine]; tags = [m[2] for m in mine]
                rep.ob('C14.register', '%s: each receiver is registered once with its own tag' % cls, len(set(locs)) == len(locs) and len(set(tags)) == len(tags) and len(locs) > 0,
                       'receivers %s with tags %s' % ([showloc(x) for x in locs], [showloc(x) for x in tags]), fn, trace=tr)
                n += 1
            bc = [e[1] for e in ev if e[0] == 'bcast']
            for comm, loc, tag, done, at_ in mine:
                rep.ob('C14.comm', '%s: the receiver is registered for the communicator of the grid' % cls, is_comm(comm), 'registered with %s' % show(comm), fn, trace=tr)
                regs.setdefault(loc, {'tag': tag, 'done': [], 'fn': fn})['done'].append((done, tr))
                if regs[loc]['tag'] != tag: raise AnalysisBroken('%s: receiver %s registered with different tags' % (cls, showloc(loc)))
            if v == ZERO:
                for comm, loc, tag, done, at_ in mine:
                    ok = any(e[0] == 'bcast' and e[1] == tag and e[2] == ZERO for e in ev[at_:])
                    rep.ob('C14.tagknown', '%s: the tag of %s is passed on to the other domains' % (cls, showloc(loc)), ok, 'no broadcast of %s from domain 0 after the registration' % showloc(tag), fn, trace=tr)
        # the other domains take part in the same broadcasts and register nothing
        c2 = Cl(p); c2.dom = ONE
        for ev, held, s, v in paths(p, fn, rep, args=byparam(fn), client=c2):
            rep.ob('C14.onedomain', '%s: only the first domain registers' % cls, not any(e[0] == 'register' for e in ev), 'a domain other than 0 registers a receiver', fn, trace=s.trace())
            n += 1
    return regs, written, n

def is_comm(t):
    s = show(t)
    return 'comm' in s.lower() and 'commthread' not in s.lower()

def replies(rep, p, cls, loc, rfn):
    """normalised replies of a receiver: set of tuples of sends per path; first-read fields of the object"""
    store = {}
    own = rfn['cls'] == cls
    if not own:
        for c in p.classes.values():
            if c['n'] == rfn['cls']:
                for f in c['fields']:
                    if canon_t(c_type(c, f)).rstrip('*& ').endswith(cls.split('::')[-1]): store[F(f['n'])] = ('&', PARENT)
        if not store: raise AnalysisBroken('%s: pointer to the serving object not found' % rfn['cls'])
    c = Cl(p); out = []
    for ev, held, s, v in paths(p, rfn, rep, store=store, client=c):
        sends = []; tr = s.trace()
        for i, e in enumerate(ev):
            if e[0] == 'MPI' and e[1] in SENDS:
                a = e[2]; sends.append(dict(buf=a[0], count=norm(a[1]), type=norm(a[2]), to=a[3], tag=norm(a[4]), comm=norm(a[5])))
                r = SENDS[e[1]]
                if r is not None:
                    req = a[r]; fin = [j for j in range(i + 1, len(ev)) if ev[j][0] == 'MPI' and ((ev[j][1] == 'MPI_Wait' and ev[j][2][0] == req) or (ev[j][1] == 'MPI_Test' and ev[j][2][0] == req and ev[j][3]))]
                    un = [j for j in range(i + 1, len(ev)) if ev[j][0] == 'cunlock']
                    rep.ob('C14.complete', '%s: the reply is complete before its data is given up' % rfn['n'], bool(fin) and (not un or fin[0] < un[0]), 'the request of %s is not completed before %s' % (e[1], 'the slot is unlocked' if un else 'the function returns'), rfn, trace=tr)
        out.append((tuple(tuple(sorted((k, v2) for k, v2 in d.items() if k != 'buf')) for d in sends), sends, tr))
    reads = {}
    for l, w in c.first.items():
        l2 = norm(l)
        if under(l, PARENT) or (own and under(l, THISLOC)): reads[l2] = w
    return out, reads

def requests(rep, p, cls, regs):
    """{tag field: [(fn, rank, receives that follow, probed tags, locks held throughout, trace)]}"""
    tags = {r['tag']: loc for loc, r in regs.items()}
    out = {}
    snd = {f['id'] for f in p.fns('mpi::CommThread::send')}
    for fn in p.funcs.values():
        if fn.get('cls') != cls or fn['sn'] == 'recv' or not reaches_send(p, fn, snd): continue
        if fn.get('kind') in ('ctor', 'dtor'): continue
        for ev, held, s, v in paths(p, fn, rep, client=Cl(p)):
            locks = []
            k = 0
            while k < len(ev):
                e = ev[k]
                if e[0] == 'lock': locks.append(e[1])
                elif e[0] == 'unlock' and e[1] in locks: locks.remove(e[1])
                if e[0] == 'send':
                    t = e[1]
                    if not (t[0] == 'i' and t[1] in tags):
                        rep.ob('C14.request', '%s: requests use a registered tag' % fn['n'], False, 'sends with tag %s' % show(t), fn, trace=s.trace()); k += 1; continue
                    rs = []; pr = []; hold = list(locks); j = k + 1; between = set(); answered = None
                    while j < len(ev) and ev[j][0] != 'send':
                        x = ev[j]
                        if x[0] == 'unlock' and x[1] in hold: hold.remove(x[1])
                        if x[0] == 'MPI' and x[1] in PROBES: pr.append((x[2][0], x[2][1], x[2][2], x[3] if len(x) > 3 else True))
                        if x[0] == 'MPI' and x[1] in RECVS:
                            rs.append(dict(buf=x[2][0], count=x[2][1], type=x[2][2], source=x[2][3], tag=x[2][4], comm=x[2][5], hold=tuple(hold)))
                            if RECVS[x[1]] is not None and not any(y[0] == 'MPI' and ((y[1] == 'MPI_Wait' and y[2][0] == x[2][6]) or (y[1] == 'MPI_Test' and y[2][0] == x[2][6] and y[3])) for y in ev[j:]):
                                rep.ob('C14.complete', '%s: the receive is complete before its data is used' % fn['n'], False, 'the request of %s is never completed' % x[1], fn, trace=s.trace())
                        j += 1
                    out.setdefault(t[1], []).append((fn, e[2], rs, pr, s.trace(), v))
                k += 1
    return out

def reaches_send(p, fn, snd, depth=4, seen=None):
    seen = seen or set()
    for c in calls(fn):
        i = c.get('fn')
        if i in snd: return True
        g = p.funcs.get(i)
        if g is not None and i not in seen and depth and g.get('cls') == fn.get('cls'):
            seen.add(i)
            if reaches_send(p, g, snd, depth - 1, seen): return True
    return False

def tagbase(tag):
    """(base symbol or None, constant offset) of a reply tag"""
    if tag[0] == 'poly':
        m = tag[2]
        if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1: return m[0][0][0], tag[1]
    if tag[0] == 'c': return None, tag[1]
    return tag, 0

def one(rep, p, cls):
    regs, written, n = registrations(rep, p, cls)
    req = requests(rep, p, cls, regs)
    fns = [f for f in p.funcs.values() if (f.get('cls') or '').startswith(cls)]
    vt = vartypes(p, fns)
    kinds = []; alltags = {}; reqn = 0; repn = 0
    for loc, r in regs.items():
        rc = fieldcls(p, cls, loc)
        rfs = recv_fn(p, rc) if rc else []
        if len(rfs) != 1: raise AnalysisBroken('%s: receive function of %s not found' % (cls, showloc(loc)))
        rfn = rfs[0]
        out, reads = replies(rep, p, cls, loc, rfn)
        # everything the receiver reads is in place when the first message can arrive
        for l, (f, line) in sorted(reads.items(), key=repr):
            k = l
            if k not in written: continue
            # contents of tables are filled in by every domain; the protocols that guarantee this are checked elsewhere
            if k[0] != 'f' or k == r['tag']: continue      # the own tag is known before the receiver becomes visible (C14.visible)
            for done, tr in r['done']:
                rep.ob('C14.ready', '%s: %s is set before its receiver is registered' % (rfn['n'], showloc(k)), k in done,
                       '%s is read when a message arrives but is only set after the registration' % showloc(k), r['fn'], trace=tr)
        if loc != THISLOC:
            st = {k for done, _ in r['done'] for k in done}
            rep.ob('C14.ready', '%s knows the object it serves' % rfn['n'], any(under(k, loc) for k in st), 'the receiver is registered before it is initialised', r['fn'])
        counts = {len(s) for _, s, _ in out}
        rep.ob('C14.one', '%s: the same number of replies on every path' % rfn['n'], len(counts) == 1, 'paths with %s replies' % sorted(counts), rfn, trace=out[0][2])
        need = max(counts)
        rep.ob('C14.one', '%s: at most one reply per request' % rfn['n'], need <= 1, '%d replies for one request' % need, rfn, trace=max(out, key=lambda x: len(x[1]))[2])
        alts = {}
        for key, sends, tr in out:
            for d in sends:
                repn += 1
                sender = ('i', ('p', rfn['params'][0]['n'] or 'arg0'))
                rep.ob('C14.peer', '%s: the reply goes to the rank that asked' % rfn['n'], d['to'] == sender, 'replies to %s' % show(d['to']), rfn, trace=tr)
                rep.ob('C14.comm', '%s: the reply uses the communicator of the grid' % rfn['n'], is_comm(d['comm']), 'replies on %s' % show(d['comm']), rfn, trace=tr)
                elem(rep, p, rfn, d, vt, tr)
                alts.setdefault(d['tag'], []).append((d, tr))
        rq = req.get(r['tag'], [])
        rep.ob('C14.request', '%s: requests exist for %s' % (cls, showloc(loc)), bool(rq), 'no function sends with tag %s' % showloc(r['tag']), r['fn'])
        accepted = {}
        for fn, rank, rs, pr, tr, v in rq:
            reqn += 1
            rep.ob('C14.wait', '%s: the requester waits for exactly one reply (or none if there is none)' % fn['n'], len(rs) == need,
                   '%d receives follow a request that is answered %d times' % (len(rs), need), fn, trace=tr)
            for d in rs:
                rep.ob('C14.peer', '%s: the reply is received from the rank that was asked' % fn['n'], d['source'] == rank, 'asks %s, receives from %s' % (show(rank), show(d['source'])), fn, trace=tr)
                elem(rep, p, fn, d, vt, tr)
                m = alts.get(d['tag'])
                rep.ob('C14.tag', '%s: the tag of the receive is one of the replies' % fn['n'], m is not None, 'receives tag %s, the replies have %s' % (show(d['tag']), [show(t) for t in alts]), fn, trace=tr)
                if m is not None:
                    accepted.setdefault(d['tag'], []).append(d)
                    for x, tr2 in m:
                        rep.ob('C14.match', '%s: element count agrees with %s' % (fn['n'], rfn['n']), x['count'] == d['count'], 'receives %s elements, %s are sent' % (show(d['count']), show(x['count'])), fn, trace=tr)
                        rep.ob('C14.match', '%s: element type agrees with %s' % (fn['n'], rfn['n']), x['type'] == d['type'], 'receives type %s, %s is sent' % (show(d['type']), show(x['type'])), fn, trace=tr)
                        rep.ob('C14.match', '%s: communicator agrees with %s' % (fn['n'], rfn['n']), x['comm'] == d['comm'], 'receives on %s, the reply is sent on %s' % (show(d['comm']), show(x['comm'])), fn, trace=tr)
                rep.ob('C14.pair', '%s: requests with the same reply tags are serialised' % fn['n'], any(shared(l) for l in d['hold']),
                       'no lock shared by all threads of the process is held from the request to the reply (held: %s)' % [showloc(x) for x in d['hold']], fn, trace=tr)
                kinds.append((d['tag'], frozenset(l for l in d['hold'] if shared(l)), fn))
            for rk, tg, cm, ok in pr:
                rep.ob('C14.probe', '%s: probes for replies of the rank that was asked' % fn['n'], rk == rank and tg in alts and all(x['comm'] == cm for x, _ in alts.get(tg, [])),
                       'probes rank %s, tag %s on %s' % (show(rk), show(tg), show(cm)), fn, trace=tr)
        for t in alts:
            alltags.setdefault(t, set()).add(loc)
            rep.ob('C14.wait', '%s: the reply %s is received by the requester' % (rfn['n'], tagname(t)), t in accepted or not rq, 'no path of the requester receives a reply with tag %s' % show(t), rfn, trace=alts[t][0][1])
        # while waiting, every possible reply is looked for
        for fn, rank, rs, pr, tr, v in rq:
            missed = [x for x in pr if not x[3]]
            if missed:
                rep.ob('C14.wait', '%s: every kind of reply is looked for while waiting' % fn['n'], {x[1] for x in pr} | {d['tag'] for d in rs} <= set(alts) , 'probes %s, replies have %s' % ([show(x[1]) for x in pr], [show(t) for t in alts]), fn, trace=tr)
    # different requests, different outcomes: different tags
    for t, locs in alltags.items():
        rep.ob('C14.distinct', '%s: reply tag %s belongs to one kind of request' % (cls, tagname(t)), len(locs) == 1, 'shared by %s' % [showloc(l) for l in locs], regs[list(locs)[0]]['fn'])
    bases = {tagbase(t)[0] for t in alltags}
    rep.ob('C14.distinct', '%s: all reply tags are drawn from one range' % cls, len(bases) == 1, 'tags are based on %s' % [show(b) if b else 'constants' for b in bases])
    for b in bases:
        if b is None:
            rep.ob('C14.distinct', '%s: reply tags belong to this level' % cls, False, 'a constant tag is shared by all levels of the grid'); continue
        offs = [tagbase(t)[1] for t in alltags if tagbase(t)[0] == b]
        reserved(rep, p, cls, b[1] if b[0] == 'i' else None, offs, regs)
    for t, hold, fn in kinds:
        for t2, hold2, fn2 in kinds:
            if t == t2: rep.ob('C14.pair', '%s and %s wait for the same tag under one lock' % (fn['n'], fn2['n']), bool(hold & hold2), 'locks %s and %s' % ([showloc(x) for x in hold], [showloc(x) for x in hold2]), fn)
    return len(regs), reqn, repn

def tagname(t):
    b, o = tagbase(t)
    return '%s+%d' % (show(b) if b else '', o)

def shared(l):
    """a lock reached through a pointer member (the pointer is broadcast to all domains)"""
    return l[0] == 'd' and l[1][0] == 'i' and l[1][1][0] == 'f' or l[0] == 'g'

def elem(rep, p, fn, d, vt, tr):
    t = canon_t(ctype(p, d['buf'], vt)); m = mpiname(d['type'])
    if t in CT and m is not None:
        rep.ob('C14.ctype', '%s: MPI type matches the buffer of type %s' % (fn['n'], t), CT[t] == m or (t, m) in LAX, 'buffer of type %s described as %s' % (t, m), fn, trace=tr)
        rep.ob('C14.ctype', '%s: one object is one element' % fn['n'], d['count'] == ONE, '%s elements in a single variable' % show(d['count']), fn, trace=tr)

def reserved(rep, p, cls, base, offs, regs):
    """reply tags are the registered tag itself or lie in the range reserved on the grid's communicator"""
    if base is None: raise AnalysisBroken(cls + ': reply tags not understood')
    if any(r['tag'] == base for r in regs.values()):
        rep.ob('C14.distinct', '%s: the reply tag is the registered tag' % cls, set(offs) == {0}, 'offsets %s' % sorted(set(offs)))
        return
    n = 0
    for fn in p.fns(cls + '::init'):
        c = Cl(p); c.dom = ZERO
        for ev, held, s, v in paths(p, fn, rep, args=byparam(fn), client=c):
            if v != ZERO: continue
            n += 1
            val = s.store.get(base)
            tg = [e for e in ev if e[0] == 'tags' and ('op', 'tags', C(e[2])) == val]
            rep.ob('C14.reserved', '%s: reply tags are reserved on the communicator' % cls, bool(tg), '%s = %s' % (showloc(base), show(val) if val else 'unset'), fn, trace=s.trace())
            if tg:
                num = tg[0][1]
                rep.ob('C14.reserved', '%s: all reply tags lie in the reserved range' % cls, num[0] == 'c' and min(offs) >= 0 and max(offs) < num[1], 'offsets %s, reserved %s' % (sorted(set(offs)), show(num)), fn, trace=s.trace())
                i = ev.index(tg[0])
            rep.ob('C14.tagknown', '%s: the reply tags are passed on to the other domains' % cls, any(e[0] == 'bcast' and e[1] == base and e[2] == ZERO for e in ev), 'no broadcast of %s' % showloc(base), fn, trace=s.trace())
    if not n: raise AnalysisBroken(cls + ': no successful initialisation')

def reserve(rep, p):
    """reserveTags hands out disjoint ranges"""
    n = 0
    for fn in p.fns('mpi::MPIComm::reserveTags'):
        for ev, held, s, v in paths(p, fn, rep):
            n += 1
            flds = [k for k in s.store if k[0] == 'f' and k[1] == THISLOC]
            ok = v[0] == 'i' and v[1] in flds and sub(s.store[v[1]], add(v, P(fn, 0))) == ZERO
            rep.ob('C14.reserve', 'the returned tags are not handed out again', ok, 'returns %s, next is %s' % (show(v), [show(s.store[k]) for k in flds]), fn, trace=s.trace())
    return n

def wire(rep, p):
    """send and the handler agree on type, count, communicator and on how ranks and tags are translated"""
    from .c15 import ct_paths, iterations, MSG, entry_of, REG
    n = 0; sent = set()
    for fn in p.fns('mpi::CommThread::send'):
        for ev, held, s, v in ct_paths(p, fn, rep):
            tr = s.trace(); snd = [e for e in ev if e[0] == 'MPI' and e[1] in SENDS]
            ins = [(c, b) for c, b in s.conds.items() if 'in' in repr(c)]
            for e in snd:
                n += 1; a = e[2]; sent.add((show(a[1]), show(a[2]), a[5]))
                m = entry_of(P(fn, 0))
                rep.ob('C14.send', 'a message carries the data it was given', e[3] == P(fn, 2), 'sends %s' % (show(e[3]) if e[3] else '?'), fn, trace=tr)
                rep.ob('C14.send', 'a message carries the tag of its receiver', a[4] == P(fn, 0), 'sends with tag %s' % show(a[4]), fn, trace=tr)
                t = a[3]
                ok = t[0] == 'op' and t[1] == 'translated' and t[2] == ('i', ('f', m, 'group')) and t[3] == P(fn, 1) and t[4] == ('i', F('m_group'))
                rep.ob('C14.send', 'the rank of the grid is translated to the rank of the communication thread', ok, 'sends to %s' % show(t), fn, trace=tr)
                rep.ob('C14.send', 'a blocking send: the message leaves its buffer before the function returns', SENDS[e[1]] is None or any(x[0] in ('done',) for x in ev), e[1], fn, trace=tr)
            rep.ob('C14.send', 'at most one message per call', len(snd) <= 1, '%d messages' % len(snd), fn, trace=tr)
            if not snd:
                has = [b for c, b in s.conds.items() if c[0] == 'op' and 'in' in repr(c)]
                rep.ob('C14.send', 'a message to a registered receiver is sent', any(has), 'returns without sending although the tag is registered', fn, trace=tr)
    for fn, ev, held, s in iterations(p, rep):
        tr = s.trace(); n += 1
        d = [e for e in ev if e[0] == 'dispatch']; r = [e for e in ev if e[0] == 'MPI' and e[1] == 'MPI_Recv']
        for e in r:
            a = e[2]
            for c_, t_, cm in sent:
                rep.ob('C14.recv', 'the communication thread receives what send sends', show(a[1]) == c_ and show(a[2]) == t_ and lastf(a[5]) == lastf(cm), 'receives %s x %s on %s, sent are %s x %s on %s' % (show(a[1]), show(a[2]), show(a[5]), c_, t_, show(cm)), fn, trace=tr)
        for e in d:
            m = entry_of(S('msgtag'), glob=True)
            ok = e[1] == ('d', ('i', ('f', m, 'recv'))) or e[1] == ('i', ('f', m, 'recv'))
            rep.ob('C14.dispatch', 'a message is handled by the receiver registered for its tag', ok, 'handled by %s' % (showloc(e[1]) if e[1] else '?'), fn, trace=tr)
            t = e[2]
            ok = t[0] == 'op' and t[1] == 'translated' and lastf(t[2]) == 'm_group' and t[3] == S('msgsource') and t[4] == ('i', ('f', m, 'group'))
            rep.ob('C14.dispatch', 'the sender is translated to its rank in the grid', ok, 'sender %s' % show(t), fn, trace=tr)
            rep.ob('C14.dispatch', 'the data is passed on unchanged', e[3] == S('message'), 'data %s' % show(e[3]), fn, trace=tr)
    for fn in p.fns('mpi::CommThread::registerReceiver'):
        for ev, held, s, v in ct_paths(p, fn, rep, running=True):
            if v != ZERO: continue
            n += 1; tr = s.trace()
            tag = s.store.get(Engine.deref(('i', ('p', fn['params'][2]['n'])))) or s.store.get(('d', P(fn, 2)))
            m = entry_of(tag)
            rep.ob('C14.visible', 'the receiver is entered under the tag that is returned', s.store.get(('f', m, 'recv')) in (('&', Engine.deref(P(fn, 1))), P(fn, 1)), 'entry %s' % show(tag), fn, trace=tr)
            rep.ob('C14.visible', 'the receiver is entered with the group of its communicator', s.store.get(('f', m, 'group')) == ('op', 'MPI_Comm_group', P(fn, 0)), 'group %s' % (show(s.store[('f', m, 'group')]) if ('f', m, 'group') in s.store else None), fn, trace=tr)
            red = tag is not None and tag[0] == 'op' and tag[1] == 'reduced' and tag[2] == ('i', F('m_nextTag')) and 'max' in repr(tag[3]) and tag[4] == P(fn, 0)
            rep.ob('C14.unique', 'the tag is the maximum of the next tags of all processes of the grid', red, 'tag %s' % (show(tag) if tag else None), fn, trace=tr)
            nx = s.store.get(F('m_nextTag'))
            d = sub(nx, tag) if nx is not None and tag is not None else None
            rep.ob('C14.unique', 'the tag is not used again', d is not None and d[0] == 'c' and d[1] >= 1, 'the next tag is %s' % (show(nx) if nx else 'unchanged'), fn, trace=tr)
            mp = [i for i, e in enumerate(ev) if e[0] == 'mapput']; tg = [i for i, e in enumerate(ev) if e[0] == 'tagset']
            rep.ob('C14.visible', 'the tag is known before the receiver is visible', bool(mp) and bool(tg) and tg[0] < mp[0], 'the receiver is entered before its tag is stored', fn, trace=tr)
            bar = [i for i, e in enumerate(ev) if e[0] == 'MPI' and e[1] == 'MPI_Barrier' and e[2][0] == P(fn, 0)]
            sy = bar or [i for i, e in enumerate(ev) if e[0] == 'MPI' and e[1] in ('MPI_Allreduce', 'MPI_Allgather', 'MPI_Alltoall') and e[2][-1] == P(fn, 0)]
            rep.ob('C14.visible', 'no process uses the tag before all have entered their receiver', bool(mp) and any(i > mp[-1] for i in sy), 'no barrier on the communicator of the grid after the receiver has been entered', fn, trace=tr)
    return n

def lastf(v):
    while isinstance(v, tuple) and v and v[0] in ('i', '&') and isinstance(v[1], tuple): v = v[1]
    return v[2] if isinstance(v, tuple) and v[0] == 'f' else showv(v)
def showv(v):
    try: return show(v)
    except Exception: return repr(v)

def run(rep):
    rep.rule('C14.register', 'every receiver is registered exactly once, with its own tag, on the grid communicator, by the first domain')
    rep.rule('C14.ready', 'every member the receiver reads is stored before it is registered')
    rep.rule('C14.one', 'every path of a receiver sends the same number of replies, at most one')
    rep.rule('C14.match', 'reply and receive agree on tag, count, type, peer and communicator')
    rep.rule('C14.wait', 'the requester receives exactly the replies the receiver can send')
    rep.rule('C14.distinct', 'reply tags of different requests and outcomes are distinct and lie in the range reserved for this level')
    rep.rule('C14.pair', 'one process-wide lock is held from the request to the reply')
    rep.rule('C14.send', 'a message reaches the process and receiver it is meant for, with its data unchanged')
    rep.rule('C14.visible', 'a tag is unique and only used once all processes have entered their receiver')
    rep.rule('C14.complete', 'asynchronous sends are completed before their buffer is given up')
    cfgs = ['mt', 'default'] if TIER != 'thorough' else ['mt', 'default', 'nompi3', 'nonuma']
    c = r = q = 0
    for cfg in cfgs:
        p = programs([cfg])[cfg]
        for cls in users(p):
            a, b, d = one(rep, p, cls)
            c += a; q += b; r += d
        n = reserve(rep, p); w = wire(rep, p)
    rep.floor('receivers', c, 5 * len(cfgs)); rep.floor('request paths', q, 5 * len(cfgs)); rep.floor('reply paths', r, 3 * len(cfgs)); rep.floor('tag reservations', n, 1); rep.floor('messages', w, 4)
