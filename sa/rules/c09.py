"""C09: order and arguments of directory operations around the replacement of a block."""
from ..query import *
from ..xfer import *

def query_rules(rep, p, cls, full, fn, res):
    n = 0; w = short(full)
    for ev, s in res:
        tr = s.trace()
        def ob(rule, what, ok, msg): rep.ob(rule, w + ': ' + what, ok, msg, fn, trace=tr)
        g = None; st = None
        for e in ev:
            if e[0] == 'get':
                g = e; n += 1; st = dict(deleted=False, open=False, published=0, filled=False, fetched=False)
                _, blk, slot, data, hit, obj = g
                old = ('op', 'oldblock', slot[2])
                continue
            if g is None: continue
            if e[0] in ('start', 'end', 'add', 'del'):
                b, r, o, pos = e[1]
                tgt = old if e[0] == 'del' else blk
                what = {'start': 'look-up', 'end': 'end of the transfer', 'add': 'publication', 'del': 'removal'}[e[0]]
                if e[0] == 'del': ob('C09.args', 'the removal names the replaced block', b == old, 'removes %s, the slot held %s' % (show(b), show(old)))
                else: ob('C09.args', 'the %s names the requested block' % what, b == blk, 'names %s' % show(b))
                ob('C09.args', 'the %s goes to the home of its block' % what, r == ('op', 'rank', b) and o == ('op', 'noff', b), 'goes to rank %s, entry %s' % (show(r), show(o)))
                # position of the own slot in the rank's caches: domain * slots per domain + slot
                ok = position_ok(pos, slot)
                ob('C09.args', 'the %s names the own cache position' % what, ok, 'position %s' % show(pos))
                if hit: ob('C09.hit', 'a hit does not touch the directory', False, what + ' on a hit')
            if e[0] == 'del':
                ob('C09.order', 'the old entry is removed before anything is fetched', not st['fetched'] and not st['open'], 'removed after the fetch has begun')
                st['deleted'] = True
            if e[0] in ('numa', 'mpi', 'load') and not hit:
                ob('C09.order', 'the old entry is removed before the fetch', st['deleted'], '%s before the removal of the old entry' % e[0]); st['fetched'] = True
                if e[0] == 'mpi': ob('C09.order', 'a remote copy happens inside the bracket of its look-up', st['open'], 'transfer without a look-up')
                if e[0] == 'numa' and e[2] or e[0] == 'mpi' and e[2] or e[0] == 'load': st['filled'] = True
            if e[0] == 'start':
                ob('C09.order', 'the old entry is removed before the look-up', st['deleted'], 'look-up before the removal')
                st['open'] = True
            if e[0] == 'add':
                ob('C09.order', 'a block is published only when complete', st['filled'], 'published before the data is there')
                ob('C09.order', 'a block is published once', st['published'] == 0, 'published twice'); st['published'] += 1
            if e[0] == 'end':
                ob('C09.order', 'readers are excluded until the block is complete', st['filled'], 'the bracket ends before the data is there')
                ob('C09.order', 'the bracket is closed once', st['open'], 'closed without being open'); st['open'] = False; st['published'] += 1
            if e[0] == 'unlock' and not hit:
                ob('C09.order', 'the new block is published while its slot is held', st['published'] == 1, 'the slot is released before the block was published' if not st['published'] else 'published %d times' % st['published'])
                ob('C09.order', 'no bracket stays open', not st['open'], 'the look-up bracket is still open')
    return n

def position_ok(pos, slot):
    """slot + (slots per domain) * (own domain)"""
    rest = sub(pos, slot)
    if slot in subterms(rest): return False
    if rest[0] != 'poly' or rest[1] != 0 or len(rest[2]) != 1: return False
    (m, c), = rest[2]
    if c != 1 or len(m) != 2: return False
    dom = [x for x in m if x == S('domainId') or x[0] == 'i' and x[1][0] == 'f' and 'domain' in x[1][2].lower()]
    oth = [x for x in m if x not in dom]
    return len(dom) == 1 and len(oth) == 1 and oth[0][0] == 'i' and oth[0][1][0] == 'f'

def subterms(t):
    out = set()
    def rec(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.add(x)
            for y in x: rec(y)
    rec(t)
    return out

class DictClient(XferClient):
    """directory primitives become events"""
    def special(self, eng, st, fr, node, name, obj, args):
        p = name.split('::')
        if name.startswith('transfer::MPICache') and p[-1] in ('updateBlockInfo', 'deleteBlockInfo', 'fetchAndUpdateBlockInfo', 'fetchBlockInfo'):
            a = tuple(eng.load(st, x, fr, node) for x in args)
            self.emit(st, ('dict', p[-1]) + a)
            return [(st, ('op', 'found', C(len(self.evs(st)))))]
        return XferClient.special(self, eng, st, fr, node, name, obj, args)

def transfer_rules(rep, p, cfg):
    n = 0
    for cls in ('MPIThreadCache', 'MPIWinCache'):
        full = 'transfer::' + cls
        if not p.by_name.get(full + '::deleteBlock'): continue
        rcs = None
        for op in ('deleteBlock', 'addBlock', 'startTransfer', 'endTransfer', 'transfer'):
            for fn in p.fns(full + '::' + op):
                if op != 'transfer' and len(fn['params']) != 4: continue
                w = cls + '::' + op
                for ev, held, s, v in paths(p, fn, rep, client=DictClient(p), budget=400000):
                    n += 1; tr = s.trace()
                    def ob(rule, what, ok, msg): rep.ob(rule, w + ': ' + what, ok, msg, fn, trace=tr)
                    e = Engine(p, Client())
                    dic = [x for x in ev if x[0] == 'dict']; snd = [x for x in ev if x[0] == 'send']
                    if op == 'deleteBlock':
                        neg = e.decide(s, cmp('<', P(fn, 0), ZERO))
                        if neg is True: ob('C09.empty', 'an empty slot has no entry to remove', not ev, 'talks to the directory although the slot was empty'); continue
                        ob('C09.empty', 'empty slots are recognised', neg is False, 'the removal does not distinguish an empty slot')
                    local = e.decide(s, cmp('==', P(fn, 1), S('mpirank')))
                    if op in ('deleteBlock', 'addBlock') or op == 'endTransfer' and cls == 'MPIThreadCache':
                        prim = 'deleteBlockInfo' if op == 'deleteBlock' else ('updateBlockInfo', 'fetchAndUpdateBlockInfo')
                        k = len(dic) + len(snd)
                        ob('C09.effect', 'the directory is changed exactly once', k == 1, '%d directory operations' % k)
                        if dic: ob('C09.effect', 'the right directory operation', dic[0][1] in prim, dic[0][1])
                    if op == 'startTransfer' and cls == 'MPIWinCache':
                        ob('C09.effect', 'the look-up also enters the own position', len(dic) == 1 and dic[0][1] == 'fetchAndUpdateBlockInfo', [x[1] for x in dic])
                    if op == 'startTransfer' and cls == 'MPIThreadCache':
                        ob('C09.effect', 'the look-up asks the directory', len(dic) + len(snd) == 1 and all(x[1] == 'fetchBlockInfo' for x in dic), [x[1] for x in dic])
                    for x in dic:
                        if x[1] in ('updateBlockInfo', 'deleteBlockInfo', 'fetchAndUpdateBlockInfo'):
                            enc = x[3]
                            ob('C09.encode', 'entries are rank * positions per rank + position', encoded(enc, P(fn, 3), (S('mpirank'),) if local is not True else (S('mpirank'), P(fn, 1))), 'entry is %s' % show(enc))
                        b, o = ptr(x[2])
                        if o is not None and b is not None and locroot(Engine.deref(x[2]))[0] not in ('v', 't'):
                            ob('C09.entry', 'the local directory is indexed by the entry of the block', linear_in(o, P(fn, 2)), 'uses entry %s' % show(x[2]))
                            ob('C09.entry', 'the local directory is only used for local blocks', local is True, 'the home may be another rank')
                        else: ob('C09.entry', 'a copied entry is used for remote blocks', local is not True, 'a local block is handled through a copy')
                    for x in ev:
                        if x[0] == 'MPI' and x[1] in ('MPI_Win_lock',) and op != 'transfer':
                            ob('C09.remote', 'the directory window is locked at the home rank', x[2][1] == P(fn, 1), 'locks rank %s' % show(x[2][1]))
                        if x[0] == 'MPI' and x[1] in ('MPI_Get', 'MPI_Put') and op != 'transfer':
                            ob('C09.remote', 'remote directory accesses name the home rank and entry', x[2][3] == P(fn, 1) and linear_in(x[2][4], P(fn, 2)), 'accesses rank %s, offset %s' % (show(x[2][3]), show(x[2][4])))
                    if dic and local is False and dic[0][1] != 'fetchBlockInfo':
                        puts = [i for i, x in enumerate(ev) if x[0] == 'MPI' and x[1] == 'MPI_Put']; gets = [i for i, x in enumerate(ev) if x[0] == 'MPI' and x[1] == 'MPI_Get']; d = ev.index(dic[0])
                        ob('C09.remote', 'a remote entry is read, changed and written back', bool(gets) and bool(puts) and gets[-1] < d < puts[-1], 'order of the accesses: %s' % [x[1] for x in ev if x[0] in ('MPI', 'dict')])
                    if dic and local is True: ob('C09.remote', 'a local entry is not written remotely', not any(x[0] == 'MPI' and x[1] in ('MPI_Put', 'MPI_Get') for x in ev), 'remote access to the own rank')
                    for x in snd:
                        ob('C09.remote', 'requests go to the home rank', x[2] == (P(fn, 1) if op != 'transfer' else x[2]), 'request sent to %s' % show(x[2]))
                        ob('C09.remote', 'requests only for remote blocks', local is False or op == 'transfer', 'request although the home is local')
                        if op in ('deleteBlock', 'addBlock', 'endTransfer'):
                            dm = [y for y in subterms(x[3]) if y == P(fn, 2)]
                            ob('C09.request', 'the request carries entry and position', packed(x[3], P(fn, 2), P(fn, 3)), 'request is %s' % show(x[3]))
                        elif op == 'startTransfer': ob('C09.request', 'the look-up request carries the entry', x[3] == P(fn, 2), 'request is %s' % show(x[3]))
                        else: ob('C09.request', 'the block request names the block', x[3] == P(fn, 1), 'request is %s' % show(x[3]))
        # the server side unpacks what the requests pack and enters the sender's position
        if cls == 'MPIThreadCache':
            for rc, prim in (('Adder', 'updateBlockInfo'), ('Deleter', 'deleteBlockInfo'), ('BlockInfoResponder', 'fetchBlockInfo')):
                for fn in p.fns('transfer::MPIThreadCache::%s::recv' % rc):
                    for ev, held, s, v in paths(p, fn, rep, client=DictClient(p)):
                        n += 1
                        def ob(rule, what, ok, msg): rep.ob(rule, '%s: %s' % (rc, what), ok, msg, fn, trace=s.trace())
                        dic = [x for x in ev if x[0] == 'dict']
                        ob('C09.server', 'one directory operation per request', len(dic) == 1 and dic[0][1] == prim, [x[1] for x in dic])
                        for x in dic:
                            _, o = ptr(x[2])
                            if prim == 'fetchBlockInfo': ob('C09.server', 'uses the requested entry', linear_in(o, P(fn, 1)), 'uses %s' % show(x[2]))
                            else:
                                q = [y for y in subterms(o) if y[:2] == ('op', '/') and y[2] == P(fn, 1)]
                                ob('C09.server', 'unpacks the entry', len(q) == 1 and linear_in(o, q[0]), 'uses %s' % show(x[2]))
                                if q:
                                    R = q[0][3]; pos = binop('%', P(fn, 1), R)
                                    ob('C09.server', "enters the sender's position", x[3] == add(mul(P(fn, 0), R), pos), 'enters %s' % show(x[3]))
    return n

def linear_in(o, v):
    if o is None: return False
    a = [subst(o, lambda t, k=k: C(k) if t == v else None) for k in (0, 1, 2, 3)]
    return a[0] == ZERO and a[1] != ZERO and sub(a[2], a[1]) == a[1] and sub(a[3], a[2]) == a[1] and v not in subterms(a[1])

def encoded(enc, pos, ranks):
    rest = sub(enc, pos)
    if pos in subterms(rest): return False
    for r in ranks:
        if linear_in(rest, r) and rcs_like(subst(rest, lambda t: ONE if t == r else None)): return True
    return False
def rcs_like(t): return t[0] == 'i' and t[1][0] == 'f'
def packed(d, entry, pos):
    rest = sub(d, pos)
    return pos not in subterms(rest) and linear_in(rest, entry) and rcs_like(subst(rest, lambda t: ONE if t == entry else None))

def run(rep):
    rep.rule('C09.order', 'on every miss: remove old entry, fetch, publish; nothing is published before the data is complete unless the bracket excludes readers; slot held throughout')
    rep.rule('C09.args', 'every directory operation names the block, the block\'s home rank and entry, and the own cache position')
    rep.rule('C09.effect', 'each directory operation of each transfer changes exactly one entry, locally or at the home rank')
    nq = nt = 0
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        for cls, full, fn, res in queries(p, rep, all_types=TIER != 'quick'):
            if cls == 'CacheDist': nq += query_rules(rep, p, cls, full, fn, res)
        nt += transfer_rules(rep, p, cfg)
    rep.floor('slot episodes of distributed caches', nq, 10)
    rep.floor('paths of directory operations', nt, 20)
