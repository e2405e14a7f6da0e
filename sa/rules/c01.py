"""C01: the C++, C and Fortran interfaces describe the same library. The C header is read by the C front end, the Fortran module by the Fortran
front end (prototypes of its bind(C) procedures and the resolved bodies of its module procedures), the wrappers by the engine."""
import json as _json, subprocess as _sp, tempfile
from .c22 import *
from ..facts import REPO, witness, mpi_flags, CONFIGS

# entry point -> operation
OPS = {'grid_create': 'create', 'grid_create_array': 'createArray', 'grid_create_struct': 'createStruct', 'grid_set_comm': 'setComm', 'grid_set_threads': 'setThreads',
       'grid_set_param': 'setParam', 'grid_open': 'open', 'grid_dimensions': 'getDimensions', 'grid_min': 'getMin', 'grid_max': 'getMax', 'grid_delta': 'getDelta',
       'grid_var_size': 'getVarSize', 'grid_get_byte': 'getByte', 'grid_get_int': 'getInt', 'grid_get_long': 'getLong', 'grid_get_float': 'getFloat',
       'grid_get_double': 'getDouble', 'grid_get_buf': 'getBuf', 'grid_close': 'close', 'start_comm_thread': 'startCommThread', 'stop_comm_thread': 'stopCommThread',
       'node_local_rank': 'nodeLocalRank'}
STATIC = {'create', 'createArray', 'createStruct', 'startCommThread', 'stopCommThread', 'nodeLocalRank'}
COMM = {'setComm', 'startCommThread', 'stopCommThread', 'nodeLocalRank'}    # exist with MPI only
CREATE = {'create', 'createArray', 'createStruct'}

# ---------------------------------------------------------------------------- front ends
def c_header(nompi):
    """enumerations and functions of include/asagi.h as a C program sees them"""
    cmd = ['clang', '-x', 'c', '-std=c99', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-I' + os.path.join(REPO, 'include')] + (['-DASAGI_NOMPI'] if nompi else mpi_flags()) + [os.path.join(REPO, 'include', 'asagi.h')]
    r = _sp.run(cmd, capture_output=True, text=True, timeout=120)
    if r.returncode: raise AnalysisBroken('asagi.h is not a C header:\n' + r.stderr[-2000:])
    enums, funcs, types = {}, {}, {}
    tree = _json.loads(r.stdout)
    byid = {}
    for d in tree['inner']:
        if d['kind'] == 'EnumDecl':
            v = -1; l = []
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl': continue
                x = next((i['value'] for i in c.get('inner', []) if i.get('kind') == 'ConstantExpr' and 'value' in i), None)
                v = int(x) if x is not None else v + 1
                l.append((c['name'], v))
            byid[d['id']] = l
        if d['kind'] == 'TypedefDecl' and d['name'].startswith('asagi'):
            def refs(x):
                if isinstance(x, dict):
                    if 'decl' in x and x['decl'].get('id') in byid: yield x['decl']['id']
                    if x.get('ownedTagDecl', {}).get('id') in byid: yield x['ownedTagDecl']['id']
                    for y in x.get('inner', []): yield from refs(y)
            for i in refs(d): enums[d['name']] = byid[i]
        if d['kind'] == 'FunctionDecl' and d['name'].startswith('asagi'):
            funcs[d['name']] = (d['type']['qualType'], [(q.get('name', ''), q['type']['qualType']) for q in d.get('inner', []) if q['kind'] == 'ParmVarDecl'])
    return enums, funcs

class Fortran:
    """include/asagi.f90 after name and type resolution"""
    def __init__(self):
        src = os.path.join(REPO, 'include', 'asagi.f90')
        with tempfile.TemporaryDirectory() as d:
            r = _sp.run(['gfortran', '-fsyntax-only', '-fdump-fortran-original', '-J' + d, src], capture_output=True, text=True, timeout=120, cwd=d)
            if r.returncode: raise AnalysisBroken('asagi.f90 cannot be compiled:\n' + r.stderr[-2000:])
            q = _sp.run(['gfortran', '-fsyntax-only', '-fc-prototypes', '-J' + d, src], capture_output=True, text=True, timeout=120, cwd=d)
        self.consts = {}; self.labels = {}; self.procs = {}; self.results = {}
        self.protos = {m.group(2): (m.group(1).strip(), [self.par(x) for x in m.group(3).split(',') if x.strip()]) for m in re.finditer(r'^(\w[\w ]*?[ *]+)(\w+) \((.*)\);', q.stdout, re.M)}
        if not self.protos: raise AnalysisBroken('no bind(C) procedures found in asagi.f90')
        blocks = re.split(r'^\s*Namespace: .*$', r.stdout, flags=re.M)
        for b in blocks[1:]:
            m = re.search(r'procedure name = (\S+)', b)
            if not m: continue
            name = m.group(1); syms = {}
            decl, _, code = b.partition('code:')
            code = code.split('CONTAINS')[0]
            for s in re.split(r"^\s*symtree: ", decl, flags=re.M)[1:]:
                n = re.match(r"'(\S+?)'\s*\|\| symbol: '(\S+?)'", s)
                if not n: continue
                d = dict(type=(re.search(r'type spec : \((.*)\)', s) or [None, ''])[1], attr=(re.search(r'attributes: \((.*)\)', s) or [None, ''])[1].split())
                v = re.search(r'value: (.*)', s); l = re.search(r"binding_label: '(\S+?)'", s); a = re.search(r'Formal arglist: (.*)', s)
                d['value'] = v.group(1).strip() if v else None; d['label'] = l.group(1) if l else None; d['args'] = a.group(1).split() if a else []
                syms[n.group(1).lower()] = d
            if not self.labels and not self.procs and 'MODULE' in decl.split('symtree')[1]:
                self.module = syms
                for n, d in syms.items():
                    if 'PARAMETER' in d['attr'] and d['value'] is not None: self.consts[n] = d['value']
                    if d['label']: self.labels[n] = d['label']
            if code.strip(): self.procs[name] = (syms, [l.strip() for l in code.strip().splitlines() if l.strip()])
    @staticmethod
    def par(x):
        x = x.strip(); m = re.match(r'(.*?)(\w+)$', x)
        return m.group(2), m.group(1).strip()

def sexpr(s):
    """expression of the dump -> nested lists"""
    tok = re.findall(r"'(?:[^'\\]|\\.)*'|\[\[|\]\]|[()]|[^\s()\[\]]+", s)
    pos = 0
    def seq(end):
        nonlocal pos
        out = []
        while pos < len(tok) and tok[pos] != end:
            t = tok[pos]; pos += 1
            if t == '(': out.append(seq(')')); pos += 1
            elif t == '[[':
                a = seq(']]'); pos += 1
                out[-1] = ['call', out[-1], a[0] if len(a) == 1 and isinstance(a[0], list) else a]
            else: out.append(t)
        return out
    r = seq(None)
    return r

def f_run(F, name):
    """[(conditions, calls, result)] of a module procedure"""
    syms, code = F.procs[name]
    out = []
    def val(e, env):
        if isinstance(e, list):
            if len(e) == 1: return val(e[0], env)
            if e and e[0] == 'call':
                return ('call', e[1], tuple(val(x, env) for x in e[2]))
            if len(e) == 2 and e[1] in ('FULL', ['FULL']): return val(e[0], env)      # the whole array
            return ('op', e[0]) + tuple(val(x, env) for x in e[1:])
        x = e.split(':')[-1]
        if ':' in e: return env.get(x, ('var', x))
        if re.match(r"^[-+]?\d", e) or e.startswith("'"): return ('const', e)
        return env.get(e, ('var', e))
    def go(i, env, conds, calls):
        while i < len(code):
            l = code[i]; w = l.split(' ', 1)
            if w[0] == 'ASSIGN':
                e = sexpr(w[1]); tgt = e[0]; v = val(e[1:], env)
                if v[0] == 'call' and v[1] in F.labels or v[0] == 'call' and v[1] in F.procs:
                    calls = calls + [v]
                env = dict(env); env[tgt.split(':')[-1]] = v
            elif w[0] == 'CALL':
                e = sexpr(w[1]); calls = calls + [('call', e[0], tuple(val(x, env) for x in (e[1] if len(e) > 1 else [])))]
            elif w[0] == 'IF':
                c = val(sexpr(w[1]), env); pol = True
                while c[0] == 'op' and c[1] in ('NOT', '.not.') and len(c) == 3: c = c[2]; pol = not pol
                depth = 0; els = None; j = i + 1
                while True:
                    k = code[j].split(' ', 1)[0]
                    if k == 'IF': depth += 1
                    if k == 'ENDIF':
                        if depth == 0: break
                        depth -= 1
                    if k == 'ELSE' and depth == 0 and els is None: els = j
                    j += 1
                for want in (True, False):
                    known = dict(conds).get(c)
                    if known is not None and known != (want == pol): continue
                    cs = conds if known is not None else conds + [(c, want == pol)]
                    a, b = (i + 1, els if els is not None else j) if want else ((els + 1, j) if els is not None else (j, j))
                    for e2, c2, k2 in part(a, b, env, cs, calls): go(j + 1, e2, c2, k2)
                return
            elif w[0] in ('NOP', 'CONTINUE'): pass
            elif w[0] == 'RETURN': break
            else: raise AnalysisBroken('statement of %s not understood: %s' % (name, l[:80]))
            i += 1
        out.append((conds, calls, env.get(name)))
    def part(a, b, env, conds, calls):
        # straight-line statements of a branch (nested conditions are not used)
        res = [(env, conds, calls)]
        for l in code[a:b]:
            w = l.split(' ', 1)
            new = []
            for e0, c0, k0 in res:
                if w[0] == 'ASSIGN':
                    e = sexpr(w[1]); v = val(e[1:], e0); e2 = dict(e0); e2[e[0].split(':')[-1]] = v
                    new.append((e2, c0, k0 + [v] if v[0] == 'call' and (v[1] in F.labels or v[1] in F.procs) else k0))
                elif w[0] == 'CALL':
                    e = sexpr(w[1]); new.append((e0, c0, k0 + [('call', e[0], tuple(val(x, e0) for x in (e[1] if len(e) > 1 else [])))]))
                else: raise AnalysisBroken('statement of %s not understood: %s' % (name, l[:80]))
            res = new
        return res
    go(0, {}, [], [])
    return out

# ---------------------------------------------------------------------------- wrappers
class ApiClient(Client):
    """records the operations a wrapper performs"""
    def ev(self, st, *e): st.ts = (st.ts or ()) + (e,)
    def inline(self, eng, fn, name): return name.startswith(('asagi_', 'f90asagi_', 'witness::')) or name.startswith('asagi::Grid::') and name.split('::')[-1] in STATIC | {'close'} - {'nodeLocalRank'} or '::' not in name or name.startswith('(anonymous')
    def ld(self, eng, st, fr, node, a): return eng.load(st, a, fr, node) if a is not None else None
    def virtual(self, eng, st, fr, node, obj, cands): return []
    def call(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]; site = (fr.fid, node.get('i'))
        vals = lambda: tuple(self.ld(eng, st, fr, node, a) for a in args)
        if node.get('k') == 'ctor' and name.startswith('grid::Grid::'):
            self.ev(st, 'new', len(args), vals(), eng.canon(st, obj) if obj is not None else None); return [(st, None)]
        if name == 'grid::Grid::f2c': return [(st, ('op', 'grid', vals()[0]))]
        if name == 'grid::Grid::c2f': return [(st, ('op', 'id', eng.addr(eng.canon(st, obj))))]
        if sn in ('MPI_Comm_f2c', 'PMPI_Comm_f2c'): return [(st, ('op', 'comm', vals()[0]))]
        if name.startswith('mpi::CommThread::'):
            r = ('op', 'result', C(sn)); self.ev(st, 'comm', sn, vals(), showloc(eng.canon(st, obj)) if obj is not None else '?'); return [(st, r)]
        if name.startswith(('asagi::Grid::', 'grid::Grid::')) and (sn not in STATIC | {'close'} or sn == 'nodeLocalRank'):
            if node.get('k') == 'ctor': return None
            self.ev(st, 'op', sn, eng.addr(eng.canon(st, obj)) if obj is not None else None, vals()); return [(st, ('op', 'result', C(sn)))]
        if name in ('operator delete', 'operator delete[]'):
            self.ev(st, 'delete', eng.load(st, args[0])); return [(st, None)]
        return None
    def opaque(self, eng, st, fr, node, name, obj, args):
        if name in ('operator new', 'operator new[]'): return
        self.ev(st, 'other', name)

def expected(op, handle, a, ctor):
    """events and result of an operation"""
    if op == 'create': return [('new', (a[0], ZERO))], 'grid'
    if op == 'createArray': return [('new', (a[0], ONE))], 'grid'
    if op == 'createStruct': return [('new', tuple(a))], 'grid'
    if op == 'startCommThread': return [('comm', 'init', tuple(a))], ('op', 'result', C('init'))
    if op == 'stopCommThread': return [('comm', 'finialize', ())], None
    if op == 'nodeLocalRank': return [('op', op, None, tuple(a))], ('op', 'result', C(op))
    if op == 'close': return [('delete', handle)], None
    return [('op', op, handle, tuple(a))], ('op', 'result', C(op))

def norm(e):
    if e[0] == 'new': return ('new', e[2] if len(e[2]) != 1 else e[2] + (ZERO,))
    if e[0] == 'comm': return ('comm', e[1], e[2])
    if e[0] == 'op' and e[1] == 'nodeLocalRank': return ('op', e[1], None, e[3])
    return e

def ctype(t):
    """representation of a parameter or result type across the languages"""
    t = re.sub(r'\b(const|struct|enum|class)\b', '', t).replace('[]', '*').strip()
    t = re.sub(r'\s+', ' ', t).replace(' *', '*')
    if re.match(r'^(asagi_type|asagi_error|asagi::Grid::Type|asagi::Grid::Error|grid::Grid::Error)\b', t): t = re.sub(r'^[\w:]+', 'int', t)
    t = t.replace('unsigned int', 'int').replace('unsigned long', 'long').replace('unsigned char', 'char').replace('signed char', 'char')
    if t == 'unsigned': t = 'int'
    return t.replace(' ', '')

def wrappers(rep, p, cfuncs, F):
    n = 0
    nompi = any(x.startswith('ASAGI_NOMPI') for x in p.defs)
    decl = {f: ('C', f[6:]) for f in cfuncs}
    fdecl = {f: ('Fortran', f[9:]) for f in F.protos if f.startswith('f90asagi_')}
    for f in F.protos: rep.ob('C01.known', 'Fortran procedures are bound to functions of the library', f.startswith('f90asagi_') and f[9:] in OPS, '%s is bound to no known operation' % f, None)
    for f in cfuncs: rep.ob('C01.known', 'C functions are operations of the library', f.startswith('asagi_') and f[6:] in OPS, f)
    for k in OPS:
        if nompi and OPS[k] in COMM: continue
        rep.ob('C01.complete', 'asagi_%s is declared for C' % k, 'asagi_' + k in cfuncs, 'not declared')
        rep.ob('C01.complete', 'f90asagi_%s is declared for Fortran' % k, 'f90asagi_' + k in F.protos, 'not declared')
    for name, (lang, short) in sorted(list(decl.items()) + list(fdecl.items())):
        if short not in OPS: continue
        op = OPS[short]
        l = [f for f in p.funcs.values() if f['n'] == name and f.get('blocks')]
        rep.ob('C01.defined', '%s is defined' % name, len(l) == 1, '%d definitions' % len(l))
        if len(l) != 1: continue
        fn = l[0]; n += 1
        pars = [S(q['n']) for q in fn['params']]
        c = ApiClient(); e = Engine(p, c, 4000); res = e.run(fn); rep.engine(p, e)
        if lang == 'Fortran':
            # prototypes of the two languages
            fr, fa = F.protos[name]
            rep.ob('C01.proto', '%s returns the same type' % name, ctype(fr) == ctype(fn['T'][fn['ret']]), 'Fortran: %s, C: %s' % (fr, fn['T'][fn['ret']]), fn)
            ct = [ctype(fn['T'][q['t']]) for q in fn['params']]
            rep.ob('C01.proto', '%s takes the same arguments' % name, [ctype(t) for _, t in fa] == ct, 'Fortran: %s, C: %s' % (fa, [fn['T'][q['t']] for q in fn['params']]), fn)
            cn = [q['n'].lower().replace('_', '') for q in fn['params']]
            for j, (x, _) in enumerate(fa):
                x = x.lower().replace('_', '')
                if x in cn: rep.ob('C01.proto', '%s takes its arguments in the same order' % name, cn.index(x) == j, 'argument %s' % x, fn)
        if op in CREATE: handle, a = None, pars
        elif op in STATIC: handle, a = None, pars
        else: handle, a = (('op', 'grid', pars[0]) if lang == 'Fortran' else pars[0]), pars[1:]
        if lang == 'Fortran' and op in COMM and op != 'stopCommThread': a = a[:-1] + [('op', 'comm', a[-1])]
        noop = nompi and op in COMM
        want, ret = ([], None) if noop else expected(op, handle, a, None)
        for s, v in res:
            ev = [norm(x) for x in (s.ts or ())]
            if noop:
                rep.ob('C01.forward', '%s does nothing without MPI' % name, not ev, 'it performs %s' % [x[:2] for x in ev], fn, None, s.trace()); continue
            ok = list(ev) == want
            rep.ob('C01.forward', '%s performs exactly %s with its arguments' % (name, op), ok, 'performed: %s; expected: %s' % ([sh(x) for x in ev], [sh(x) for x in want]), fn, None, s.trace())
            rt = fn['T'][fn['ret']]
            if rt == 'void' or not ok: continue
            if ret == 'grid':
                h = [x for x in s.ts if x[0] == 'new'][0][3]
                g = e.addr(h)
                good = v in ((('op', 'id', g),) if lang == 'Fortran' else (g,))
            else: good = v == ret
            rep.ob('C01.result', '%s hands back the result of %s' % (name, op), good, 'it returns %s' % (show(v) if v else v), fn, None, s.trace())
            # nothing is lost in the result type
            m = [f for f in p.funcs.values() if f.get('cls') == 'grid::Grid' and f['sn'] == op]
            if m and ret != 'grid':
                t = m[0]['T'][m[0]['ret']]
                rep.ob('C01.result', '%s returns the type of %s' % (name, op), ctype(t) == ctype(rt), '%s instead of %s' % (rt, t), fn)
        rep.ob('C01.forward', '%s returns' % name, bool(res), 'no path returns', fn)
    return n

def sh(e): return tuple(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('c', '&', 'i', 'op', 'poly', 'r') else [show(y) for y in x] if isinstance(x, tuple) else x for x in e)

def defaults(p, cfg):
    """optional arguments of the C++ interface"""
    w = witness(cfg, 'api'); out = {}
    for fn in [f for f in w.funcs.values() if f['n'].startswith('witness::') and f.get('blocks')]:
        class K(ApiClient):
            def inline(self, eng, f, name): return name.startswith('witness::') or name == 'asagi::Grid::close'
            def call(self, eng, st, fr, node, name, obj, args):
                sn = name.split('::')[-1]
                if name.startswith('asagi::Grid::') and sn != 'close':
                    self.ev(st, 'op', sn, None, tuple(self.ld(eng, st, fr, node, a) for a in args)); return [(st, ('op', 'result', C(sn)))]
                return ApiClient.call(self, eng, st, fr, node, name, obj, args)
        e = Engine(w, K(), 2000)
        for s, v in e.run(fn): out[fn['sn']] = (s.ts or (), fn)
    return out

def fortran(rep, p, F, dflt, enumv):
    """module procedures of asagi.f90"""
    n = 0
    public = {x for x, d in F.module.items() if x.startswith('asagi_') and ('MODULE-PROC' in d['attr'] or x in F.procs or x in F.labels and not x.endswith('_c'))}
    for short in OPS: rep.ob('C01.complete', 'asagi_%s exists in Fortran' % short, 'asagi_' + short in public, 'not found in the module')
    for x in sorted(public):
        short = x[6:]
        if short not in OPS: continue
        if x in F.labels:
            n += 1
            rep.ob('C01.fortran', '%s is bound to the function of its name' % x, F.labels[x] == 'f90' + x, 'bound to %s' % F.labels[x]); continue
        if x not in F.procs: continue
        n += 1
        dummies = F.module[x]['args']; syms = F.procs[x][0]
        rt = F.module[x]['type'].replace(' C_INTEROP', '')
        op = OPS[short]
        for conds, calls, res in f_run(F, x):
            calls = [c for c in calls if c[1] in F.labels or c[1] in F.procs]
            ok = len(calls) == 1 and F.labels.get(calls[0][1]) == 'f90' + x
            rep.ob('C01.fortran', '%s calls the function of its name once' % x, ok, 'calls %s' % [c[1] for c in calls])
            if not ok: continue
            want = []
            for d in dummies:
                v = ('var', d)
                at = syms[d]['attr']
                if 'OPTIONAL' in at:
                    pr = [b for c, b in conds if c[0] == 'call' and 'present' in c[1] and c[2] in ((('var', d),),)]
                    if pr and pr[0] is False: v = ('const', dflt(op, d))
                    elif not pr: v = ('undecided', d)
                if syms[d]['type'].startswith('CHARACTER'): v = ('op', '//', v, ('const', "'\\x00'"))
                want.append(v)
            got = list(calls[0][2])
            rep.ob('C01.fortran', '%s passes its arguments on%s' % (x, '' if all(b for c, b in conds) else ' (optional arguments left out)'), got == want, 'passed %s; expected %s' % (got, want))
            if 'FUNCTION' in F.module[x]['attr']:
                rep.ob('C01.fortran', '%s returns the result' % x, res == calls[0], 'returns %s' % (res,))
                ct = F.module[calls[0][1]]['type'].replace(' C_INTEROP', '')
                rep.ob('C01.fortran', '%s returns the type of the function' % x, re.sub(r'^CHARACTER.*', 'CHARACTER', ct) == re.sub(r'^CHARACTER.*', 'CHARACTER', rt), '%s instead of %s' % (rt, ct))
        # dummy arguments and arguments of the function agree in type
        lab = 'f90' + x
        if lab in F.protos:
            fa = F.protos[lab][1]
            for d, (q, t) in zip(dummies, fa):
                ft = syms[d]['type']; k = ctype(t)
                need = {'int': 'INTEGER 4', 'long': 'INTEGER 8', 'double': 'REAL 8', 'float': 'REAL 4', 'double*': 'REAL 8', 'char*': 'CHARACTER', 'void*': 'DERIVED c_ptr'}.get(k)
                if need: rep.ob('C01.fortran', '%s takes arguments of the right type' % x, ft.startswith(need), '%s: %s for %s' % (d, ft, t))
    return n

def enums(rep, p, cen, F):
    n = 0
    for cxx, cname in (('asagi::Grid::Type', 'asagi_type'), ('asagi::Grid::Error', 'asagi_error')):
        cc = dict(p.enums_of(cxx)) if hasattr(p, 'enums_of') else dict(next(e['c'] for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums) if e['n'] == cxx))
        c = {k[6:] if k.startswith('ASAGI_') else k: v for k, v in cen.get(cname, [])}
        for k, v in cc.items():
            n += 1
            rep.ob('C01.enum', '%s has the same value in C' % k, c.get(k) == v, '%s: C++ %s, C %s' % (k, v, c.get(k)))
            f = F.consts.get('asagi_' + k.lower())
            rep.ob('C01.enum', '%s has the same value in Fortran' % k, f is not None and int(f) == v, '%s: C++ %s, Fortran %s' % (k, v, f))
        for k in c: rep.ob('C01.enum', '%s exists in C++' % k, k in cc, 'only known in C')
        rep.ob('C01.enum', 'codes are different', len(set(cc.values())) == len(cc), str(cc))
        allc = set(cc)
    known = {('asagi_' + k.lower()) for cxx in ('asagi::Grid::Type', 'asagi::Grid::Error') for k in dict(next(e['c'] for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums) if e['n'] == cxx))}
    for k in F.consts:
        if k.startswith('asagi_'): rep.ob('C01.enum', '%s exists in C++' % k, k in known, 'only known in Fortran')
    return n

class GetClient(Client):
    """grid::Grid: queries are answered by a container"""
    def inline(self, eng, fn, name): return name.startswith('grid::Grid::')
    def ev(self, st, *e): st.ts = (st.ts or ()) + (e,)
    def virtual(self, eng, st, fr, node, obj, cands): return []
    def call(self, eng, st, fr, node, name, obj, args):
        sn = name.split('::')[-1]
        if name.startswith('numa::Numa::') and sn == 'domainId': return [(st, ('op', 'domainId'))]
        if name.startswith(('grid::Container::', 'types::Type::')) or name.startswith('grid::') and not name.startswith('grid::Grid::') and 'ontainer' in name:
            vals = tuple(eng.load(st, a, fr, node) if a is not None else None for a in args)
            self.ev(st, sn, showloc(eng.canon(st, obj)), vals)
            if sn.startswith('get') and vals and vals[0] is not None and vals[0][0] == '&': eng.write(st, eng.canon(st, Engine.deref(vals[0])), ('op', 'value', C(sn)))
            return [(st, ('op', 'result', C(sn)))]

def grids(rep, p):
    """the C++ grid hands every query to a container of its own"""
    n = 0
    for op in ('getDimensions', 'getMin', 'getMax', 'getDelta', 'getVarSize', 'getByte', 'getInt', 'getLong', 'getFloat', 'getDouble', 'getBuf'):
        for fn in [f for f in p.fns('grid::Grid::' + op) if f.get('blocks')]:
            n += 1
            e = Engine(p, GetClient(), 2000); pars = [S(q['n']) for q in fn['params']]
            for s, v in e.run(fn):
                ev = s.ts or ()
                local = op in ('getByte', 'getInt', 'getLong', 'getFloat', 'getDouble')
                want = 'size' if op == 'getVarSize' else op
                ok = len(ev) == 1 and ev[0][0] == want
                if ok:
                    a = list(ev[0][2])
                    if local: ok = a[0] is not None and a[0][0] == '&' and a[1:] == pars
                    else: ok = a == pars
                    where = ev[0][1]
                    own = op in ('getByte', 'getInt', 'getLong', 'getFloat', 'getDouble', 'getBuf')
                    if op == 'getVarSize': ok = ok and 'm_type' in where
                    else: ok = ok and ('m_containers[domainId()]' in where if own else 'm_containers[' in where)
                rep.ob('C01.grid', 'grid::Grid::%s asks a container the same question' % op, ok, 'asked %s' % [(x[0], x[1][:60], [show(y) if y else y for y in x[2]]) for x in ev], fn, None, s.trace())
                if ok and fn['T'][fn['ret']] != 'void':
                    rep.ob('C01.grid', 'grid::Grid::%s returns the answer' % op, v == (('op', 'value', C(op)) if local else ('op', 'result', C(want))), 'returns %s' % (show(v) if v else v), fn, None, s.trace())
            rep.engine(p, e)
    return n

def run(rep):
    rep.rule('C01.enum', 'type and error codes have the same values in C++, C and Fortran')
    rep.rule('C01.known', 'every entry point is named after an operation'); rep.rule('C01.complete', 'every operation has its entry point in each language')
    rep.rule('C01.defined', 'every declared entry point is defined once')
    rep.rule('C01.proto', 'Fortran interfaces agree with the C functions they are bound to')
    rep.rule('C01.forward', 'a wrapper performs exactly the operation it is named after, with its arguments in order')
    rep.rule('C01.result', 'a wrapper hands back the result'); rep.rule('C01.fortran', 'module procedures call the function of their name with their arguments')
    rep.rule('C01.grid', 'queries of the grid are answered by a container'); rep.rule('C01.default', 'optional arguments have the same default')
    F = Fortran(); t = {}
    for cfg in (['default', 'nompi'] if TIER == 'quick' else ALL):
        p = programs([cfg])[cfg]
        nompi = any(x.startswith('ASAGI_NOMPI') for x in p.defs)
        cen, cfn = c_header(nompi)
        d = defaults(p, cfg)
        env = dict(next(e['c'] for e in (p.enums.values() if isinstance(p.enums, dict) else p.enums) if e['n'] == 'asagi::Grid::Type'))
        def dflt(op, dummy):
            if op not in d: return None
            ev = [x for x in d[op][0] if x[0] == 'op']
            if not ev or not ev[0][3]: return None
            v = ev[0][3][-1]      # optional arguments come last
            return str(v[1]) if v is not None and v[0] == 'c' else None
        t['codes'] = t.get('codes', 0) + enums(rep, p, cen, F)
        t['wrappers'] = t.get('wrappers', 0) + wrappers(rep, p, cfn, F)
        t['Fortran procedures'] = t.get('Fortran procedures', 0) + fortran(rep, p, F, dflt, env)
        t['grid queries'] = t.get('grid queries', 0) + grids(rep, p)
        # close through the C++ interface
        ev = d['close'][0]
        rep.ob('C01.forward', 'asagi::Grid::close destroys the grid', len(ev) == 1 and ev[0][0] == 'delete' and ev[0][1] == S('g'), 'it performs %s' % (ev,), d['close'][1])
        for sn, (ev, fn) in d.items():
            if sn in ('close',): continue
            a = [x for x in ev if x[0] == 'op'][0][3]
            named = {'create': 3, 'createArray': 3, 'startCommThread': -1}
            if 'level' in sn or sn in ('setParam', 'open', 'getDelta', 'getByte', 'getInt', 'getLong', 'getFloat', 'getDouble', 'getBuf', 'getCounter'):
                rep.ob('C01.default', 'the level of %s is 0 unless given' % sn, a[-1] == ZERO, show(a[-1]) if a[-1] else '?', fn)
    for k, m in (('codes', 36), ('wrappers', 60), ('Fortran procedures', 40), ('grid queries', 20)): rep.floor(k, t[k], m)
