"""C02: an error of any step of opening is returned, and nothing is done after it as if it had succeeded."""
import re
from ..query import *
from ..xfer import *

ERR = ('asagi::Grid::Error', 'enum asagi::Grid::Error', 'Error')
# external operations whose failure is an error of the opening (their result is an error code)
ZERO_OK = ('nc_open', 'nc_inq_varid', 'MPI_Alloc_mem', 'MPI_Win_create', 'MPI_Comm_dup', 'MPI_Comm_rank', 'MPI_Comm_size',
           'MPI_Type_contiguous', 'MPI_Type_create_struct', 'MPI_Type_create_resized', 'MPI_Type_commit', 'pthread_create', 'pthread_setspecific', 'MPI_Allreduce')
NONNEG_OK = ('sched_getcpu', 'numa_node_of_cpu')
def is_sync(nm): return nm.startswith(('Numa::', 'NumaComm::', 'Sync::', 'NoNuma::')) and not nm.endswith('::allocate')

def is_err(t): return t.replace('const ', '').strip() in ERR

class ErrClient(LockClient):
    """every step of an opening may fail"""
    def __init__(self, prog, root):
        LockClient.__init__(self, prog); self.root = root; self.maxev = 120; self._hs = {}
        self.bases = basenames(prog, root.get('cls'))
    def inline(self, eng, fn, name):
        return self.passes(fn) or not is_err(fn['T'][fn['ret']] if isinstance(fn.get('ret'), int) else '')
    def passes(self, fn):
        """a helper that is given the error (cleans up, prints) and has no step of its own: not a step"""
        return bool(fn.get('blocks')) and any(is_err(x['t'] if isinstance(x['t'], str) else fn['T'][x['t']]) for x in fn['params']) and self.near(fn) and not self.has_steps(fn)
    def has_steps(self, f, depth=0):
        k = f['id']
        if k not in self._hs:
            self._hs[k] = False
            for b in f['B'].values():
                for e in b['e']:
                    if e.get('k') != 'call': continue
                    n = e.get('n') or ''
                    t = f['T'][e['t']] if isinstance(e.get('t'), int) and e['t'] >= 0 else ''
                    g = self.p.funcs.get(e.get('fn'))
                    if is_err(t) or n in ZERO_OK or n in NONNEG_OK or n.startswith('threads::Sync::') or (g is not None and g.get('blocks') and depth < 6 and self.has_steps(g, depth + 1)):
                        self._hs[k] = True
        return self._hs[k]
    def near(self, f):
        """helpers of the function under analysis are followed; other code only through its result"""
        c = f.get('cls') or ''
        if loops_of(f) and not self.has_steps(f): return False
        if not c: return f.get('file') == self.root.get('file')
        if c == self.root.get('cls') or c.startswith(('std::', 'threads::', 'utils::')): return True
        if len(f['B']) <= 4 and f.get('const'): return True
        return any(c == b for b in self.bases)
    def special(self, eng, st, fr, node, name, obj, args):
        p = name.split('::'); sn = p[-1]
        t = fr.fn['T'][node['t']] if isinstance(node.get('t'), int) and node['t'] >= 0 else ''
        callee = self.p.funcs.get(node.get('fn'))
        ld = lambda a: eng.load(st, a, fr, node) if a is not None else None
        step = None
        if is_agree(self.p, fr, node, name):
            out = agree_contract(eng, st, fr, node, ld(args[0]))
            for s, v in out: self.emit(s, ('step' if v == ZERO else 'fail', 'NumaComm::' + sn))
            return out
        if is_err(t) and callee is not None and self.passes(callee): step = None
        elif is_err(t) and sn.startswith('operator') is False: step = (ZERO, 'nz')
        elif name in ZERO_OK: step = (ZERO, 'nz')
        elif name in NONNEG_OK: step = (S('some ' + name), 'neg')
        elif name.startswith('threads::Sync::') and t == 'bool': step = (ONE, 'zero')
        if step is None:
            if name.startswith(('nc_', 'MPI_', 'pthread_', 'numa_')) and not name.startswith('numa::'):
                return [(st, eng.do_opaque(st, fr, node, name, obj, [ld(x) for x in args]))]
            if callee is not None and callee.get('blocks') and not self.near(callee):
                return [(st, eng.do_opaque(st, fr, node, name, obj, [ld(x) if x is not None and x[0] != 'obj' else x for x in args]))]
            if sn in ('saveExec', 'initContainers', 'logPrefix'): return [(st, ZERO)]
            return None
        nm = (p[-2] + '::' if len(p) > 1 else '') + sn
        if sn == 'broadcast' and args and args[0] is not None and args[0][0] in ('L', 'obj'):
            # a broadcast value is that of the root afterwards
            v = eng.do_opaque(st, fr, node, name, obj, [None])
            eng.write(st, eng.canon(st, args[0][1]), S('value of the root'))
        else: v = eng.do_opaque(st, fr, node, name, obj, [ld(x) if x is not None and x[0] != 'obj' else x for x in args])
        s2 = st.copy()
        s2.path = (s2.path, (fr.fn['file'], node.get('l'), nm + ' fails'))
        self.emit(st, ('step', nm)); self.emit(s2, ('fail', nm))
        if step[1] == 'nz':
            bad = S('error of ' + nm); eng.assume(s2, cmp('!=', bad, ZERO), True)
        elif step[1] == 'neg':
            bad = S('error of ' + nm); eng.assume(s2, cmp('<', bad, ZERO), True)
            eng.assume(st, cmp('<', step[0], ZERO), False)
        else: bad = ZERO
        return [(st, step[0]), (s2, bad)]

def basenames(p, cls):
    out = set(); todo = [cls]
    while todo:
        c = todo.pop()
        for k in p.classes.values():
            if k['n'] == c:
                for b in k.get('bases', []):
                    b = re.sub(r'<.*', '', b if isinstance(b, str) else b.get('n', ''))
                    if b not in out: out.add(b); todo.append(b)
    return out

def error_functions(p):
    out = []
    for f in p.funcs.values():
        if f.get('blocks') and isinstance(f.get('ret'), int) and is_err(f['T'][f['ret']]): out.append(f)
    return sorted(out, key=lambda f: (f['n'], f.get('full') or '', f['id']))

def run(rep):
    import re
    rep.rule('C02.propagate', 'in every function that reports grid errors: on each path on which a step fails, an error code is returned')
    rep.rule('C02.stop', 'after a failed step only synchronisation and cleanup follow')
    n = 0; names = set()
    for cfg, p in programs(ALL if TIER != 'quick' else ['default', 'mt']).items():
        seen = set()
        for fn in error_functions(p):
            if fn['file'].startswith(('/verif', '/usr')): continue
            key = (fn['n'], len(fn['params']))
            # all template instantiations have the same control flow except for their callees
            callees = tuple(sorted(set(e.get('n', '') for b in fn['B'].values() for e in b['e'] if e.get('k') == 'call'))) if isinstance(fn['B'], dict) else ()
            if (key, callees) in seen: continue
            seen.add((key, callees))
            c = ErrClient(p, fn)
            try: res = paths(p, fn, rep, client=c)
            except Budget: raise
            n += 1; names.add(fn['n'])
            for ev, held, s, v in res:
                fails = [e for e in ev if e[0] == 'fail']
                w = fn['n']
                e = Engine(p, Client())
                if not fails: continue
                tr = s.trace()
                isz = e.decide(s, cmp('==', v, ZERO)) if v is not None else True
                first = fails[0][1]
                ok = isz is False
                rep.ob('C02.propagate', '%s: failure of %s is reported' % (w, first), ok, 'returns %s although %s failed' % (show(v), first), fn, trace=tr)
                i = ev.index(fails[0])
                later = [x[1] for x in ev[i + 1:] if x[0] in ('step', 'fail') and not is_sync(x[1])]
                rep.ob('C02.stop', '%s: stops after the failure of %s' % (w, first), not later, 'continues with %s after %s failed' % (later[:3], first), fn, trace=tr)
    rep.floor('functions that report errors', len(names), 25)
    rep.floor('function instances', n, 30)
