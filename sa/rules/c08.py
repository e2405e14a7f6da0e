"""C08: on a miss the slot is filled completely exactly once before it is read; on a hit nothing is fetched."""
from ..query import *
from ..xfer import *
from .c07 import slotno

def tasks(ev):
    """split a query into slot episodes: [(get event, [events until the end])]"""
    out = []
    for i, e in enumerate(ev):
        if e[0] == 'get': out.append((e, ev[i + 1:]))
    return out

def query_rules(rep, p, cls, full, fn, res):
    n = 0
    w = short(full)
    for ev, s in res:
        tr = s.trace()
        def bad(rule, what, ok, msg): rep.ob(rule, w + ': ' + what, ok, msg, fn, trace=tr)
        conv = [i for i, e in enumerate(ev) if e[0] == 'convert']
        bad('C08.answer', 'every query delivers exactly one value', len(conv) == 1, 'converts %d values on this path' % len(conv))
        if conv: bad('C08.answer', 'the value goes to the caller', ptr(ev[conv[0]][2])[0] in (P(fn, 0), S('buf')) or ev[conv[0]][2] == P(fn, 0), 'value written to %s' % show(ev[conv[0]][2]))
        for g, rest in tasks(ev):
            n += 1
            _, blk, slot, data, hit, obj = g
            fills = []; attempts = 0; ok_addr = True; retry_open = False
            for e in rest:
                if e[0] == 'convert' and slotno(e[1]) is not None:
                    if slotno(e[1]) == slotno(data):
                        if not hit: bad('C08.fill', 'a missing block is filled before it is read', len(fills) >= 1, 'the slot is read although nothing has filled it on this path')
                    b, o = ptr(e[1])
                    bad('C08.element', 'the element read is the requested one', blk[:2] == ('op', 'blk') and o == mul(S('typeSize'), ('op', 'inb', blk[2])), 'reads offset %s of the slot of %s' % (show(o), show(blk)))
                k = {'numa': 'numa', 'mpi': 'mpi', 'mpifull': 'mpifull', 'load': 'load'}.get(e[0])
                if k is None: continue
                attempts += 1
                a = e[1] if k != 'load' else None
                dst = a[-1] if a else e[3]
                if k == 'numa': done, args_ok = e[2], a[0] == blk and (len(a) < 5 or a[1:4] == (('op', 'rank', blk), ('op', 'dom', blk), ('op', 'off', blk)))
                elif k == 'mpi': done, args_ok = e[2], a[1] == blk
                elif k == 'mpifull': done, args_ok = True, a[:2] == (('op', 'rank', blk), ('op', 'noff', blk))
                else: done, args_ok = True, True
                bad('C08.block', 'each source is asked for the missing block and its home', args_ok, '%s asked for %s, missing is %s' % (k, [show(x) for x in a] if a else '', show(blk)))
                bad('C08.slot', 'a block is fetched into the start of its slot', dst == data, '%s writes to %s, the slot is %s' % (k, show(dst), show(data)))
                if hit: bad('C08.hit', 'a cached block is not fetched again', False, '%s although the block is in the cache' % k)
                if fills: bad('C08.once', 'a block is fetched from one source only', False, '%s although %s already supplied the block' % (k, fills[0]))
                if done: fills.append(k)
                if k == 'mpi' and e[3]: retry_open = True
                elif k == 'mpi': retry_open = False
                elif retry_open: bad('C08.retry', 'a transfer to be retried is retried', False, '%s instead of the retry' % k); retry_open = False
            if hit: bad('C08.hit', 'a cached block is not fetched again', attempts == 0, 'fetches a cached block')
            else:
                bad('C08.fill', 'a missing block is obtained', len(fills) >= 1, 'no source supplies the missing block on this path')
                bad('C08.retry', 'a transfer to be retried is retried', not retry_open, 'the retry was dropped')
    return n

def contracts(rep, p):
    """what the transfer operations promise to the queries"""
    n = 0
    for fn in sorted(p.funcs.values(), key=lambda f: f['n']):
        if not fn['n'].startswith('transfer::') or fn['sn'] != 'transfer' or not fn.get('blocks'): continue
        cls = fn['cls'].split('::')[-1]
        ps = fn['params']
        buf = [i for i, q in enumerate(ps) if fn['T'][q['t']].replace('const ', '').startswith('unsigned char')]
        if not buf: raise AnalysisBroken('%s has no block parameter' % fn['n'])
        cache = P(fn, buf[-1])
        ref = [i for i, q in enumerate(ps) if q.get('isref') and 'bool' in fn['T'][q['t']]]
        isbool = fn['T'][fn['ret']] == 'bool'
        mine = ('d', cache)
        c = XferClient(p)
        for ev, held, s, v in paths(p, fn, rep, client=c):
            n += 1
            tr = s.trace(); e = Engine(p, c)
            w = cls + '::transfer'
            wr = []
            for x in ev:
                if x[0] == 'memcpy' and ptr(x[1])[0] == cache: wr.append((x[1], x[0]))
                if x[0] == 'MPI' and x[1] in OUT_MPI and ptr(x[2][0])[0] == cache: wr.append((x[2][0], x[1]))
            if isbool:
                rep.ob('C08.contract', w + ' reports success or failure', v in (ZERO, ONE), 'returns %s' % show(v), fn, trace=tr)
                if v == ONE: rep.ob('C08.contract', w + ': success means one block was written to the start of the slot', len(wr) == 1 and wr[0][0] == cache, 'reports success after %d writes to the slot' % len(wr), fn, trace=tr)
                else: rep.ob('C08.contract', w + ': failure leaves the slot alone', not wr, 'reports failure after writing to the slot (%s)' % [x[1] for x in wr], fn, trace=tr)
            elif cls not in ('MPINo',):
                rep.ob('C08.contract', w + ': one block is written to the start of the slot', len(wr) == 1 and wr[0][0] == cache, '%d writes to the slot' % len(wr), fn, trace=tr)
            if ref:
                r = e.read(s, ('d', ('i', ('p', ps[ref[0]]['n'])))) if ps[ref[0]]['n'] else None
                rep.ob('C08.contract', w + ': the retry flag is set on every path', r in (ZERO, ONE), 'the retry flag is left unchanged', fn, trace=tr)
                if r == ONE: rep.ob('C08.contract', w + ': success is never retried', v == ZERO, 'asks for a retry after a success', fn, trace=tr)
    return n

def local_only(rep, p):
    """a storage class without an MPI transfer must get every remote block from its NUMA transfer"""
    n = 0
    for cls, full, fn, res in queries(p, rep):
        if cls != 'FullDist': continue
        void = [e for ev, s in res for e in ev if e[0] == 'mpifull' and e[3] == 'MPINo']
        if not void: continue
        numa = sorted(set(e[3] for ev, s in res for e in ev if e[0] == 'numa'))
        for c in numa:
            for f in p.fns('transfer::%s::transfer' % c):
                if len(f['params']) != 5: continue
                n += 1
                x = XferClient(p)
                for q in p.fns('transfer::%s::init' % c, required=False):
                    # after init, the rank stored is the rank of the communicator
                    for ev, held, s, v in paths(p, q, rep, client=XferClient(p)):
                        if v is not None and v != ZERO: continue
                        st = {k: y for k, y in s.store.items() if locroot(k) == THISLOC or under(k, THISLOC)}
                        for ev2, h2, s2, v2 in paths(p, f, rep, store=st, args=[P(f, 0), S('mpirank'), P(f, 2), P(f, 3), P(f, 4)], client=XferClient(p)):
                            rep.ob('C08.local', '%s: the NUMA transfer supplies every block of the own rank' % short(full), v2 == ONE, 'the NUMA transfer may fail and no other source exists', f, trace=s2.trace())
        rep.ob('C08.local', '%s has a source for blocks of other domains' % short(full), bool(numa) and n > 0, 'no source', fn)
    return n

def run(rep):
    rep.rule('C08.fill', 'on every path of a value query with a miss, one source fills the slot before the value is read')
    rep.rule('C08.hit', 'on a hit, no source is asked')
    rep.rule('C08.contract', 'a transfer returns true exactly after writing one block to the slot; a failed one leaves the slot alone; retry only after a failure')
    nq = nc = nl = 0
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt', 'nompi']).items():
        for cls, full, fn, res in queries(p, rep, all_types=TIER != 'quick'):
            nq += query_rules(rep, p, cls, full, fn, res)
        nc += contracts(rep, p)
        if 'nompi' not in cfg or cfg == 'nompi3': nl += local_only(rep, p)    # without MPI, the MPI kinds are aliases that are never selected (C23)
    rep.floor('slot episodes of value queries', nq, 20)
    rep.floor('paths of transfer operations', nc, 15)
    rep.floor('transfers without an MPI source', nl, 1)
