"""Path-sensitive interprocedural dataflow over the clang CFGs.

A state is (store, facts, client typestate); the store maps abstract locations to
value terms (sa.terms), facts are the branch conditions assumed so far.  Calls of
functions with bodies are inlined (virtual calls: all overriders unless the dynamic
type is known), other calls produce opaque values.  Branches whose condition is
decided by constants or facts are followed one way, others both ways.  Loops whose
exit condition is decided are followed, others are iterated to a fixpoint with
widening of every location they change.  States that agree on everything are
merged.  No solver is involved and nothing of the analysed program is executed.
"""
from .terms import *
from .facts import AnalysisBroken

class Budget(AnalysisBroken): pass

FLT = ('double', 'float', 'long double')
W32 = {'int': 'i32', 'unsigned int': 'u32', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16', 'signed char': 'i8', 'char': 'i8', 'bool': 'u8'}

class State:
    __slots__ = ('store', 'env', 'conds', 'ts', 'cnt', 'loops', 'path', 'sym')
    def __init__(self):
        self.store = {}; self.env = {}; self.conds = {}; self.ts = None
        self.cnt = {}; self.loops = {}; self.path = None; self.sym = frozenset()
    def copy(self):
        n = State.__new__(State)
        n.store = dict(self.store); n.env = dict(self.env); n.conds = dict(self.conds); n.ts = self.ts
        n.cnt = dict(self.cnt); n.loops = dict(self.loops); n.path = self.path; n.sym = self.sym
        return n
    def key(self, fid):
        return (frozenset(self.store.items()), frozenset(self.conds.items()), self.ts,
                frozenset((k, v) for k, v in self.env.items() if k[0] == fid), frozenset(self.cnt.items()))
    def trace(self):
        out, p = [], self.path
        while p: out.append(p[1]); p = p[0]
        return out[::-1]

class Frame:
    __slots__ = ('fn', 'fid', 'this', 'outer', 'dyncls', 'depth')
    def __init__(self, fn, fid, this, outer=None, dyncls=None, depth=0):
        self.fn, self.fid, self.this, self.outer, self.dyncls, self.depth = fn, fid, this, outer, dyncls, depth

MAPS = ('map', 'unordered_map', 'set', 'unordered_set', 'multimap')
MAPIT = ('_Node_iterator', '_Node_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator_base')
SCALAR_CLS = ('_Node_iterator', '_Node_const_iterator', 'basic_string', '__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', 'reverse_iterator',
              'atomic', '__wrap_iter')

def scalar_cls(name):
    if not name: return False
    b = name.split('<')[0].split('::')[-1]
    return b in SCALAR_CLS

class Client:
    """Default policies; checks override what they need."""
    max_depth = 14
    def inline(self, eng, fn, name): return True
    def call(self, eng, st, fr, node, name, obj, args): return None     # -> [(state, value)] or None
    def write(self, eng, st, fr, node, loc, val): pass
    def read(self, eng, st, fr, node, loc): pass
    def branch(self, eng, st, fr, term, taken): pass
    def leave(self, eng, st, fr, ret): pass
    def virtual(self, eng, st, fr, node, obj, cands): return cands
    def opaque(self, eng, st, fr, node, name, obj, args): pass
    def dtor(self, eng, st, fr, node, name, loc): return None
    def widen_ts(self, old, new): return new
    def mapnew(self, eng, st, obj, key):
        """is the inserted key, of which nothing is known, present already? (None: both cases)"""
    def mapop(self, eng, st, obj, key, present): pass
    def alloc(self, eng, st, fr, node, loc, n): pass
    def newed(self, eng, st, fr, node, loc): pass
    def loop(self, eng, st, fr, bid): pass

def _ty(fn, t):
    return fn['T'][t] if isinstance(t, int) and t >= 0 else ''

_loopcache = {}
def loops_of(fn):
    """{head: set(blocks)} natural loops"""
    r = _loopcache.get(fn['id'] + str(id(fn)))
    if r is not None: return r
    B = fn['B']
    color, back = {}, []
    stack = [(fn['entry'], iter([s for s in B[fn['entry']]['s'] if s >= 0]))]
    color[fn['entry']] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter([x for x in B[s]['s'] if x >= 0])))
                break
            elif color[s] == 1: back.append((b, s))
        else:
            color[b] = 2
            stack.pop()
    preds = {}
    for b in B.values():
        for s in b['s']:
            if s >= 0: preds.setdefault(s, []).append(b['id'])
    out = {}
    for t, h in back:
        body = out.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x in body: continue
            body.add(x)
            st.extend(preds.get(x, []))
    _loopcache[fn['id'] + str(id(fn))] = out
    return out

class Engine:
    def __init__(self, prog, client, budget=150000):
        self.p = prog; self.c = client; self.budget = budget; self.steps = 0
        self.fn_seen = set(); self.calls_seen = 0; self.inlined = 0
        self.opaque_names = set()
        self.widths = False
        self.unroll = 80       # iterations of a loop with decided conditions before it is widened
        self.flags = set()     # locations whose constants are kept apart at loop heads

    # ---------------------------------------------------------------- locations
    def read(self, st, loc):
        s = st.store
        v = s.get(loc)
        if v is not None: return v
        for p in prefixes(loc):
            h = s.get(('hv', p))
            if h is not None and h[0] == 'o' and h[1][0] == 'w' and self._step(loc, p) == 'f': h = None  # some element was written
            if h is not None: return ('i', ('f', ('d', h), '#' + repr(self._relpath(loc, p)))) if False else ('op', 'part', h, self._rel(loc, p))
            a = s.get(('al', p))
            if a is not None: return self.read(st, self._rebase(loc, p, a))
        h = s.get(('hv', loc))
        if h is not None: return h
        a = s.get(('al', loc))
        if a is not None: return self.read(st, a)
        if loc[0] == 'g':
            v = self.constglobal(loc[1])
            if v is not None: return v
        r = locroot(loc)
        if r[0] == 'h':   # fresh memory
            z = s.get(('zero', r))
            if z is not None: return ZERO
        return ('i', loc)
    def constglobal(self, name):
        c = self.p.__dict__.setdefault('_cg', {})
        if name in c: return c[name]
        c[name] = None
        for g in self.p.globals.values():
            if g['n'] != name or 'init' not in g: continue
            t = g['T'][g['t']] if g['t'] >= 0 else ''
            if not (t.startswith('const ') or t.endswith(' const') or t.endswith('*const')): continue
            n = g['init']
            if 'cv' in n: c[name] = C(n['cv'])
            else:
                fn = {'id': 'g' + name, 'T': g['T'], 'params': [], 'blocks': [], 'n': name}
                try: v = self.load(State(), self.eval(State(), Frame(fn, ('g', name), None), n)[0])
                except (KeyError, TypeError): v = None
                if v is not None and not any(x[0] in ('r', 'o') for x in syms(v)): c[name] = v
        return c[name]
    def _rel(self, loc, p):
        out = []
        while loc != p:
            out.append(('.' + loc[2]) if loc[0] == 'f' else ('[' + show(loc[2]) + ']'))
            loc = loc[1]
        return ('c', ''.join(reversed(out)))
    def _rebase(self, loc, p, a):
        if loc == p: return a
        return (loc[0], self._rebase(loc[1], p, a), loc[2])
    def canon(self, st, loc):
        """follow object aliases of a location"""
        for _ in range(8):
            a = None
            if loc in st.store and st.store[loc][0] == 'obj': a = st.store[loc][1]
            if a is not None: loc = a; continue
            if loc[0] in ('f', 'e'):
                b = self.canon(st, loc[1])
                if b != loc[1]: loc = (loc[0], b, loc[2]); continue
            break
        return loc
    def write(self, st, loc, val):
        s = st.store
        if loc[0] == 'e':
            b, ix = loc[1], loc[2]
            if is_c(ix):
                dead = [k for k in s if k[0] == 'e' and k[1] == b and not is_c(k[2])]
                for k in dead: del s[k]
            else:
                dead = [k for k in s if k[0] == 'e' and k[1] == b and k[2] != ix]
                for k in dead: del s[k]
                s[('hv', b)] = ('w', ix, val) if False else ('o', ('w', repr(ix)[:200]), 0, 0)
            if not is_c(ix) and b[0] == 'd': s.pop(b, None)
        elif loc[0] == 'd':
            # *p is p[0]: elements at unknown indices may be overwritten
            dead = [k for k in s if k[0] == 'e' and k[1] == loc and not is_c(k[2])]
            for k in dead: del s[k]
        dead = [k for k in s if k[0] in ('f', 'e') and under(k, loc) and self._step(k, loc) == 'f']
        for k in dead: del s[k]
        s.pop(('hv', loc), None); s.pop(('al', loc), None)
        s[loc] = val
    @staticmethod
    def _step(k, base):
        while k[1] != base: k = k[1]
        return k[0]
    def havoc(self, st, loc, sym):
        s = st.store
        dead = [k for k in s if (k[0] in ('f', 'e') and under(k, loc)) or (k[0] in ('hv', 'al') and (k[1] == loc or under(k[1], loc)))]
        for k in dead: del s[k]
        s.pop(loc, None)
        s[('hv', loc)] = sym
    def copyobj(self, st, dst, src):
        s = st.store
        if dst == src: return
        dead = [k for k in s if (k[0] in ('f', 'e') and under(k, dst))]
        for k in dead: del s[k]
        s.pop(('hv', dst), None)
        new = {}
        for k, v in s.items():
            if k == src: new[dst] = v
            elif k[0] in ('f', 'e') and under(k, src): new[self._rebase(k, src, dst)] = v
            elif k == ('hv', src): new[('hv', dst)] = v
        s.update(new)
        if ('hv', src) not in s: s[('al', dst)] = src

    @staticmethod
    def deref(v):
        if v[0] == '&': return v[1]
        if v[0] == 'obj': return v[1]
        return ('d', v)
    @staticmethod
    def addr(loc):
        if loc[0] == 'd': return loc[1]
        if loc[0] == 'e' and loc[2] == ZERO and loc[1][0] == 'd': return loc[1][1]
        return ('&', loc)
    def ptradd(self, p, i, sgn=1):
        if p[0] == '&' and p[1][0] == 'e':
            l = ('e', p[1][1], add(p[1][2], i, sgn))
        elif p[0] == '&':
            l = ('e', ('ea', p[1]), i) if False else ('e', p[1], i if sgn > 0 else sub(ZERO, i))
            if is_c(i) and i[1] == 0: return p
        else:
            if is_c(i) and i[1] == 0: return p
            l = ('e', ('d', p), i if sgn > 0 else sub(ZERO, i))
        return self.addr(l)
    def pdiff(self, a, b):
        def split(p):
            l = p[1] if p[0] == '&' else ('d', p)
            return (l[1], l[2]) if l[0] == 'e' else (l, ZERO)
        (x, i), (y, j) = split(a), split(b)
        return sub(i, j) if x == y else ('op', 'ptrdiff', a, b)
    def elem(self, p, i):
        """location p[i] for a pointer value"""
        q = self.ptradd(p, i)
        l = self.deref(q)
        return l

    # ---------------------------------------------------------------- values
    def load(self, st, v, fr=None, node=None):
        if v is None: return ('c', None)
        if v[0] == 'L':
            loc = self.canon(st, v[1])
            if fr is not None: self.c.read(self, st, fr, node, loc)
            return self.read(st, loc)
        return v

    def val(self, st, fr, e):
        """value of a (possibly nested) expression reference"""
        if e is None: return None
        if 'r' in e and 'k' not in e:
            k = (fr.fid, e['r'])
            v = st.env.get(k)
            return v
        return self.eval(st, fr, e)[0]

    def rval(self, st, fr, e):
        return self.load(st, self.val(st, fr, e), fr, e)

    # eval of a non-call node: returns (value,)  -- calls are handled in exec_elem (they fork)
    def eval(self, st, fr, n):
        k = n['k']
        fn = fr.fn
        f = getattr(self, 'ev_' + k, None)
        if f is None: return (('op', 'unknown', ('c', k)),)
        return (f(st, fr, n),)

    def ev_pass(self, st, fr, n): return self.val(st, fr, n['e'])
    def ev_mat(self, st, fr, n):
        v = self.val(st, fr, n['e'])
        if v is None: v = ('op', 'undef')
        if v[0] == 'L': return v
        if v[0] == 'obj': return ('L', v[1])
        loc = ('t', fr.fid, n.get('i', n.get('l')))
        self.write(st, loc, v)
        return ('L', loc)
    def varloc(self, st, fr, d):
        f = fr
        while f is not None:
            loc = ('v', f.fid, d)
            if d in self._locals(f.fn): return loc
            f = f.outer
        return ('v', fr.fid, d)
    def _locals(self, fn):
        s = fn.get('_locals')
        if s is None:
            s = set(p['d'] for p in fn['params'])
            for b in fn.get('blocks', []):
                for e in b['e']:
                    if e['k'] == 'decl':
                        for v in e['v']: s.add(v['d'])
            fn['_locals'] = s
        return s
    def ev_ref(self, st, fr, n):
        vk = n['vk']
        if vk == 'enum': return C(n['cv'])
        if vk == 'func': return ('fn', n['d'], n['n'])
        if vk == 'param' or vk == 'local':
            loc = self.varloc(st, fr, n['d'])
            if n.get('isref'):
                v = self.read(st, loc)
                return ('L', self.deref(v))
            if loc in st.store and st.store[loc][0] == 'obj': return ('L', st.store[loc][1])
            return ('L', loc)
        loc = ('g', n['n'])
        if n.get('isref'): return ('L', self.deref(self.read(st, loc)))
        return ('L', loc)
    def ev_mem(self, st, fr, n):
        if n.get('meth'):
            return self.val(st, fr, n['b'])
        b = self.val(st, fr, n['b'])
        if b is None: return ('op', 'undef')
        if n['arrow']:
            base = self.deref(self.load(st, b, fr, n))
        else:
            base = b[1] if b[0] in ('L', 'obj') else ('d', b)
        base = self.canon(st, base)
        loc = ('f', base, n['f'])
        if n.get('isref'): return ('L', self.deref(self.read(st, loc)))
        return ('L', loc)
    def ev_this(self, st, fr, n):
        f = fr
        while f is not None and f.this is None: f = f.outer
        return f.this if f is not None else ('i', ('this',))
    def ev_int(self, st, fr, n): return C(n['v'])
    def ev_flt(self, st, fr, n): return C(n['v'])
    def ev_str(self, st, fr, n): return C(n['v'])
    def ev_null(self, st, fr, n): return ZERO
    def ev_zero(self, st, fr, n): return ZERO
    def ev_sizeof(self, st, fr, n):
        t = _ty(fr.fn, n['of'])
        return C(self.sizes[t]) if t in self.sizes else ('op', 'sizeof', C(t))
    def ev_un(self, st, fr, n):
        op = n['op']
        e = self.val(st, fr, n['e'])
        if e is None: return ('op', 'undef')
        if op == '&':
            if e[0] == 'L': return self.addr(self.canon(st, e[1]))
            return e
        if op == '*':
            return ('L', self.deref(self.load(st, e, fr, n)))
        if op in ('++', '--'):
            if e[0] != 'L': return ('op', 'undef')
            loc = self.canon(st, e[1])
            old = self.load(st, e, fr, n)
            t = _ty(fr.fn, n.get('t'))
            d = 1 if op == '++' else -1
            new = self.ptradd(old, ONE, d) if t.endswith('*') else add(old, C(d))
            self.c.write(self, st, fr, n, loc, new)
            self.write(st, loc, new)
            return old if n.get('post') else ('L', loc)
        v = self.load(st, e, fr, n)
        if op == '-': return sub(ZERO, v)
        if op == '+': return v
        if op == '!': return lnot(truth(v))
        if op == '~':
            if is_num(v): return C(~v[1])
            return ('op', '~', v)
        return e if op == '__extension__' else ('op', op, v)
    def isptr(self, fr, n):
        return _ty(fr.fn, n.get('t', -1)).endswith('*') if isinstance(n, dict) else False
    def etype(self, fr, e):
        if isinstance(e, dict) and 'r' in e and 'k' not in e:
            m = fr.fn.get('_elt')
            if m is None:
                m = {}
                for b in fr.fn['blocks']:
                    for x in b['e']:
                        if 'i' in x: m[x['i']] = x
                fr.fn['_elt'] = m
            return self.etype(fr, m.get(e['r']))
        if not isinstance(e, dict): return ''
        if e.get('k') == 'pass': return self.etype(fr, e['e'])
        return _ty(fr.fn, e.get('t', -1))
    def isflag(self, fr, e):
        for _ in range(6):
            if isinstance(e, dict) and 'r' in e and 'k' not in e: self.etype(fr, e); e = fr.fn['_elt'].get(e['r'])
            if not isinstance(e, dict): return False
            if _ty(fr.fn, e.get('t', -1)) == 'bool': return True
            if e.get('k') not in ('cast', 'pass'): return False
            e = e['e']
        return False
    def ev_bin(self, st, fr, n):
        op = n['op']
        if op == ',': return self.val(st, fr, n['b'])
        if op in ('.*', '->*'):
            return ('op', 'mp', self.val(st, fr, n['a']), self.load(st, self.val(st, fr, n['b'])))
        a, b = self.rval(st, fr, n['a']), self.rval(st, fr, n['b'])
        if a is None or b is None: return ('op', 'undef')
        ta, tb = self.etype(fr, n['a']), self.etype(fr, n['b'])
        if op in ('+', '-') and ta.endswith('*'):
            if tb.endswith('*'):
                if a[0] == '&' and b[0] == '&' and a[1][0] == 'e' and b[1][0] == 'e' and a[1][1] == b[1][1]:
                    return sub(a[1][2], b[1][2])
                la = a[1] if a[0] == '&' else ('d', a); lb = b[1] if b[0] == '&' else ('d', b)
                ba, ia = (la[1], la[2]) if la[0] == 'e' else (la, ZERO)
                bb, ib = (lb[1], lb[2]) if lb[0] == 'e' else (lb, ZERO)
                if ba == bb: return sub(ia, ib)
                return ('op', 'ptrdiff', a, b)
            return self.ptradd(a, b, 1 if op == '+' else -1)
        if op == '+' and tb.endswith('*'): return self.ptradd(b, a)
        t = _ty(fr.fn, n.get('t', -1))
        if op == '/' and t in ('double', 'float', 'long double') and is_num(a) and is_num(b) and b[1]:
            return C(float(a[1]) / float(b[1]))
        if op in ('/', '%') and t in FLT: return ('op', 'f/', a, b)
        if op in ('<', '>', '<=', '>=') and (ta in FLT or tb in FLT):
            if not (is_num(a) and is_num(b)):
                if op == '>': op, a, b = '<', b, a
                if op == '<=': op, a, b = '>=', b, a
                return ('op', 'f' + op, a, b)
        if op in ('==', '!=') and ONE in (a, b) and not (is_c(a) and is_c(b)):      # a flag compared with true
            x, nx = (a, n['a']) if b == ONE else (b, n['b'])
            if self.isflag(fr, nx): return truth(x) if op == '==' else lnot(truth(x))
        r = binop(op, a, b)
        if self.widths and op in ('+', '-', '*', '<<') and t in W32: r = wrap(r, W32[t])
        return r
    def ev_logic(self, st, fr, n):
        # the operands have been branched on; use the recorded decision
        d = st.env.get((fr.fid, 'br', n.get('i')))
        a, b = self.val(st, fr, n['a']), self.val(st, fr, n['b'])
        if d is not None:
            rhs = (d == 0) if n['op'] == '&&' else (d == 1)
            if not rhs: return C(n['op'] == '||')
            if b is not None: return truth(self.load(st, b, fr, n))
        a = truth(self.load(st, a)) if a is not None else None
        b = truth(self.load(st, b)) if b is not None else None
        if a is not None and b is not None: return ('op', 'and' if n['op'] == '&&' else 'or', a, b)
        return b if b is not None else a
    def ev_cond(self, st, fr, n):
        d = st.env.get((fr.fid, 'br', n.get('i')))
        a, b = self.val(st, fr, n['a']), self.val(st, fr, n['b'])
        if d == 0: r = a
        elif d == 1: r = b
        else:
            c = truth(self.rval(st, fr, n['c']))
            if is_c(c): r = a if c[1] else b
            else: r = ('op', '?:', c, self.load(st, a) if a else ('op', 'undef'), self.load(st, b) if b else ('op', 'undef'))
        return r if r is not None else ('op', 'undef')
    def ev_asg(self, st, fr, n):
        a = self.val(st, fr, n['a'])
        v = self.rval(st, fr, n['b'])
        if v is None: v = ('op', 'undef')
        if a is None or a[0] != 'L': return ('op', 'undef')
        loc = self.canon(st, a[1])
        if n['op']:
            old = self.load(st, a, fr, n)
            t = self.etype(fr, n['a'])
            if n['op'] in ('+', '-') and t.endswith('*'): v = self.ptradd(old, v, 1 if n['op'] == '+' else -1)
            elif n['op'] == '/' and t in ('double', 'float'): v = ('op', 'f/', old, v)
            else: v = binop(n['op'], old, v)
        self.c.write(self, st, fr, n, loc, v)
        self.write(st, loc, v)
        return ('L', loc)
    def ev_idx(self, st, fr, n):
        b = self.rval(st, fr, n['b']); i = self.rval(st, fr, n['ix'])
        if b is None or i is None: return ('op', 'undef')
        if b[0] == '&' and b[1][0] != 'e' and False: pass
        return ('L', self.elem_loc(b, i))
    def elem_loc(self, b, i):
        return self.deref(self.ptradd(b, i))
    def ev_cast(self, st, fr, n):
        e = self.val(st, fr, n['e'])
        ck = n['ck']
        if e is None: return ('op', 'undef')
        if ck == 'LValueToRValue':
            return self.load(st, e, fr, n)
        if ck == 'ArrayToPointerDecay':
            if e[0] == 'L':
                return ('&', ('e', self.canon(st, e[1]), ZERO))
            return e
        if ck in ('FunctionToPointerDecay', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast',
                  'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr', 'CPointerToObjCPointerCast'):
            return e
        if ck == 'NullToPointer' or ck == 'NullToMemberPointer': return ZERO
        v = self.load(st, e, fr, n)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return truth(v)
        if ck == 'FloatingToIntegral':
            if is_num(v):
                try: return C(int(v[1]))
                except (OverflowError, ValueError): pass
            return ('op', 'f2i', v)
        if ck == 'IntegralToFloating' and is_num(v): return C(float(v[1])) if not isinstance(v[1], float) else v
        if ck == 'Dynamic':
            t = _ty(fr.fn, n['t'])
            if v[0] == '&' and v[1][0] == 'h' and v[1][3] in self.p.classes and t.endswith('*'):
                to = t[:-1].strip(); to = to[6:] if to.startswith('const ') else to
                return v if to == v[1][3] or to in self.p.all_bases(v[1][3]) else ZERO
            return ('op', 'dyncast', v, C(t))
        if ck == 'ToVoid': return v
        if ck == 'IntegralCast' and self.widths and not is_num(v):
            t = _ty(fr.fn, n['t'])
            return wrap(v, W32[t]) if t in W32 and self.etype(fr, n['e']) not in W32 else v
        if ck == 'IntegralCast' and is_num(v):
            t = _ty(fr.fn, n['t'])
            w = {'unsigned int': 32, 'unsigned long': 64, 'unsigned char': 8, 'unsigned short': 16}.get(t)
            if w and isinstance(v[1], int) and v[1] < 0 and t != 'unsigned long': return C(v[1] & ((1 << w) - 1))
        return v
    def ev_list(self, st, fr, n):
        vs = [self.rval(st, fr, x) for x in n['a']]
        return ('op', 'list') + tuple(v if v is not None else ('op', 'undef') for v in vs)
    def ev_lambda(self, st, fr, n):
        return ('lam', n.get('fn'), fr.fid)
    def ev_other(self, st, fr, n):
        for x in n.get('a', []): self.val(st, fr, x)
        return ('op', 'other', C(n['s']))
    def ev_new(self, st, fr, n):
        site = (fr.fid, n.get('i'))
        loc = ('h', site, self.count(st, site), n.get('clsfull') or _ty(fr.fn, n['at']))
        if n.get('arr'):
            self.c.alloc(self, st, fr, n, loc, self.rval(st, fr, n['size']) if isinstance(n.get('size'), dict) else None)
            if n.get('init') is not None and n['init'].get('k') == 'list': pass
            return ('&', ('e', loc, ZERO))
        if 'init' in n and not n.get('cls'):
            v = self.rval(st, fr, n['init'])
            if v is not None: self.write(st, loc, v)
        tgt = st.env.get((fr.fid, 'new', n.get('i')))
        if tgt is not None: loc = tgt
        self.c.newed(self, st, fr, n, loc)
        return ('&', loc)
    def count(self, st, site):
        c = st.cnt.get(site, 0)
        st.cnt[site] = c + 1
        return c
    def ev_throw(self, st, fr, n): return ('op', 'throw')
    def ev_call(self, st, fr, n):     # nested call outside of the element list (default arguments of globals)
        return ('op', 'nestedcall', C(n.get('n')))
    ev_ctor = ev_call
    def ev_ret(self, st, fr, n): return ZERO
    def ev_decl(self, st, fr, n): return ZERO

    # ---------------------------------------------------------------- conditions
    def decide(self, st, t):
        """True/False/None for a boolean term under the facts of st"""
        t = truth(t)
        if is_c(t): return bool(t[1])
        a, pol = atom(t)
        if is_c(a): return bool(a[1]) == pol
        v = st.conds.get(a)
        if v is not None: return v == pol
        if a[0] == 'op' and a[1] in ('and', 'or'):
            x, y = self.decide(st, a[2]), self.decide(st, a[3])
            if a[1] == 'and':
                if x is False or y is False: return (False) == pol
                if x and y: return True == pol
            else:
                if x or y: return True == pol
                if x is False and y is False: return False == pol
        if a[0] == 'op' and a[1] == '==':
            x, y = a[2], a[3]
            if is_c(x): x, y = y, x
            if is_c(y):
                for c, cv in st.conds.items():
                    if c[0] != 'op': continue
                    if c[1] == '==' and cv:
                        o = c[3] if c[2] == x else c[2] if c[3] == x else None
                        if o is not None and is_c(o) and o != y: return (not pol)
                    if is_num(y) and c[1] == '<':
                        if c[2] == x and is_num(c[3]):   # x < k
                            if cv and y[1] >= c[3][1]: return not pol
                            if not cv and y[1] < c[3][1]: return not pol
                        if c[3] == x and is_num(c[2]):   # k < x
                            if cv and y[1] <= c[2][1]: return not pol
                            if not cv and y[1] > c[2][1]: return not pol
        if a[0] == 'op' and a[1] == '<':
            x, y = a[2], a[3]
            for c, cv in st.conds.items():
                if c[0] == 'op' and c[1] == '==' and cv:
                    o = c[3] if c[2] == x else c[2] if c[3] == x else None
                    if o is not None and is_num(o) and is_num(y): return (o[1] < y[1]) == pol
                    o = c[3] if c[2] == y else c[2] if c[3] == y else None
                    if o is not None and is_num(o) and is_num(x): return (x[1] < o[1]) == pol
                if c[0] == 'op' and c[1] == '<':
                    # x<k decided by x<j ; k<x decided by j<x ; and x<y vs y<x
                    if cv and c[2] == y and c[3] == x: return not pol
                    if c[2] == x and is_num(c[3]) and is_num(y):
                        if cv and c[3][1] <= y[1]: return pol
                        if not cv and c[3][1] >= y[1]: return not pol
                    if c[3] == y and is_num(c[2]) and is_num(x):
                        if cv and c[2][1] >= x[1]: return pol
                        if not cv and c[2][1] <= x[1]: return not pol
                    if c[2] == y and is_num(c[3]) and is_num(x):   # y < j known, ask k < y
                        if cv and x[1] >= c[3][1] - (0 if True else 1): return not pol
                    if c[3] == x and is_num(c[2]) and is_num(y):   # j < x known, ask x < k
                        if cv and y[1] <= c[2][1]: return not pol
                    if not cv and c[2] == x and c[3] == y: return not pol
        return None

    def assume(self, st, t, taken):
        t = truth(t)
        if t[0] == 'op' and t[1] == 'and' and taken or t[0] == 'op' and t[1] == 'or' and not taken:
            self.assume(st, t[2], taken); self.assume(st, t[3], taken)
        a, pol = atom(t)
        if not is_c(a): st.conds[a] = (taken == pol)

    # ---------------------------------------------------------------- running
    sizes = {}       # known sizes of types (otherwise sizeof is symbolic)
    def run(self, fn, this=None, args=None, st=None, root=''):
        """analyse fn as a root; returns [(state, return value)]"""
        st = st or State()
        if this is None and fn.get('cls') and not fn.get('static'): this = ('i', ('this',))
        vals = []
        for i, p in enumerate(fn['params']):
            if args is not None and i < len(args) and args[i] is not None: vals.append(args[i])
            else: vals.append(('i', ('p', p['n'] or 'arg%d' % i)))
        return self.exec_fn(fn, this, vals, st, (root,), None, 0)

    def exec_fn(self, fn, this, args, st, fid, outer, depth, dyncls=None):
        self.fn_seen.add(fn['id'])
        if 'blocks' not in fn: raise AnalysisBroken('no CFG for ' + fn['n'])
        fr = Frame(fn, fid, this, outer, dyncls, depth)
        st = st.copy()
        for p, a in zip(fn['params'], args):
            if a is None: a = ('op', 'undef')
            loc = ('v', fid, p['d'])
            if p.get('isref'):
                st.store[loc] = ('&', a[1]) if a[0] in ('L', 'obj') else a
                if st.store[loc][0] == '&': st.store[loc] = self.addr(st.store[loc][1])
            elif a[0] == 'obj': st.store[loc] = a
            else: st.store[loc] = self.load(st, a)
        loops = loops_of(fn)
        results = []
        rkeys = set()
        work = [(fn['entry'], st)]
        visited = {}
        while work:
            bid, st = work.pop()
            self.steps += 1
            if self.steps > self.budget: raise Budget('analysis budget exceeded in ' + fn['n'])
            if bid in loops:
                self.c.loop(self, st, fr, bid)
                st = self.loop_head(st, fr, bid, loops[bid])
                if st is None: continue
            if bid == fn['exit']:
                rv = st.env.get((fid, 'ret'))
                self.finish(st, fr, rv)
                k = (st.key(None), rv)
                if k in rkeys: continue
                rkeys.add(k)
                results.append((st, rv))
                continue
            vk = st.key(fid)
            seen = visited.setdefault(bid, set())
            if vk in seen: continue
            seen.add(vk)
            b = fn['B'][bid]
            states = [st.copy()]
            dead = False
            for e in b['e']:
                nxt = []
                for s in states: nxt.extend(self.exec_elem(s, fr, e))
                states = nxt
                if not states: break
            for s in states:
                for nb, s2 in self.terminate(s, fr, b):
                    work.append((nb, s2))
        return results

    def loop_head(self, st, fr, bid, body):
        st = st.copy()
        lk = (fr.fid, bid)
        for k in [k for k in st.env if k[0] == fr.fid and k[1] != 'ret' and k[1] != 'new']: del st.env[k]
        cnt, snap = st.loops.get(lk, (0, None))
        if cnt >= 1 and (lk in st.sym or cnt >= self.unroll) and not self.leaves(st, fr, bid, body):
            old = dict(snap)
            changed = []
            for loc, v in st.store.items():
                if old.get(loc) != v and loc not in self.flags: changed.append(loc)
            for loc in old:
                if loc not in st.store: changed.append(loc)
            if changed:
                dropped = set()
                for loc in changed:
                    ph = ('phi', fr.fid, bid, loc)
                    dropped.add(ph)
                    if loc[0] in ('hv', 'al'):
                        if loc[0] == 'hv': st.store[loc] = ph
                        continue
                    if loc in st.store and st.store[loc][0] == 'obj': continue
                    st.store[loc] = ph
                for c in [c for c in st.conds if syms(c) & dropped]: del st.conds[c]
            st.ts = self.c.widen_ts(snap and st.loops.get((lk, 'ts')), st.ts)
            # forget per-iteration call counters and the facts about their results
            pre = fr.fid
            elems = self._loop_elems(fr.fn, body)
            gone = [k for k in st.cnt if (k[0] == pre and k[1] in elems) or (len(k[0]) > len(pre) and k[0][:len(pre)] == pre and k[0][len(pre)] in elems)]
            for k in gone: del st.cnt[k]
            def insite(sy):
                if sy[0] in ('r', 'o') and isinstance(sy[1], tuple) and len(sy[1]) == 2:
                    f, i = sy[1]
                    if not isinstance(f, tuple): return False
                    return (f == pre and i in elems) or (len(f) > len(pre) and f[:len(pre)] == pre and f[len(pre)] in elems)
                return False
            for c in [c for c in st.conds if any(insite(s) for s in syms(c))]: del st.conds[c]
        if cnt > 5 * self.unroll: raise Budget('loop bound exceeded in %s' % fr.fn['n'])
        st.loops[lk] = (cnt + 1, tuple(st.store.items()))
        return st

    def leaves(self, st, fr, bid, body):
        """does this state certainly leave the loop at its head?  (then nothing has to be generalised)"""
        b = fr.fn['B'][bid]; t = b.get('t')
        if not isinstance(t, dict) or t.get('c') is None or len(b['s']) != 2 or all(x in body for x in b['s']): return False
        if any(e['k'] in ('call', 'ctor', 'new', 'delete', 'decl', 'asm') or e['k'].endswith('dtor') for e in b['e']): return False
        states = [st.copy()]
        for e in b['e']: states = [x for s in states for x in self.exec_elem(s, fr, e)]
        if len(states) != 1: return False
        v = self.rval(states[0], fr, t['c'])
        if v is None: return False
        d = self.decide(states[0], truth(v))
        return d is not None and b['s'][0 if d else 1] not in body

    def _loop_elems(self, fn, body):
        c = fn.setdefault('_le', {})
        k = tuple(sorted(body))
        if k not in c:
            c[k] = set(e.get('i') for b in body for e in fn['B'][b]['e'] if 'i' in e)
        return c[k]

    def finish(self, st, fr, rv):
        """drop everything local to the finished frame"""
        fid = fr.fid
        n = len(fid)
        def local(l):
            r = locroot(l[1] if l[0] in ('hv', 'al', 'zero') else l)
            return r[0] in ('v', 't') and r[1][:n] == fid
        # roots reachable from the return value / remaining store
        live = set()
        def mark_t(t):
            if not isinstance(t, tuple): return
            if t[0] in ('&', 'obj', 'L'): mark_l(t[1])
            elif t[0] == 'i': mark_l(t[1])
            elif t[0] == 'op':
                for x in t[2:]: mark_t(x)
            elif t[0] == 'poly':
                for m, _ in t[2]:
                    for x in m: mark_t(x)
        def mark_l(l):
            r = locroot(l)
            if r not in live:
                live.add(r)
                if r[0] in ('v', 't'):
                    for k, v in list(st.store.items()):
                        kk = k[1] if k[0] in ('hv', 'al', 'zero') else k
                        if locroot(kk) == r:
                            if k[0] == 'al': mark_l(v)
                            else: mark_t(v)
            while l[0] in ('f', 'e'):
                if l[0] == 'e': mark_t(l[2])
                l = l[1]
        if rv is not None: mark_t(rv)
        for k, v in list(st.store.items()):
            if not local(k):
                if k[0] == 'al': mark_l(v)
                else: mark_t(v)
        for k in [k for k in st.store if local(k) and locroot(k[1] if k[0] in ('hv', 'al', 'zero') else k) not in live]: del st.store[k]
        for k in [k for k in st.env if k[0][:n] == fid]: del st.env[k]
        for k in [k for k in st.loops if (k[0][:n] == fid if isinstance(k[0][0], str) else True)]: del st.loops[k]
        st.sym = frozenset(x for x in st.sym if x[0][:n] != fid)
        # facts about values nobody can see any more
        keep = set()
        for k, v in st.store.items():
            if isinstance(v, tuple): keep |= (locsyms(v) if k[0] == 'al' else syms(v))
            kk = k[1] if k[0] in ('hv', 'al', 'zero') else k
            keep |= locsyms(kk)
        if rv is not None: keep |= syms(rv)
        for v in st.env.values():
            if isinstance(v, tuple): keep |= syms(v)
        keep |= self.c.ts_syms(st.ts) if hasattr(self.c, 'ts_syms') else set()
        for c in list(st.conds):
            for s in syms(c):
                if s[0] == 'i':
                    r = locroot(s[1])
                    if r[0] in ('v', 't') and r[1][:n] == fid: break
                    continue
                if s in keep: continue
                if hasattr(self.c, 'keep_sym') and self.c.keep_sym(s): continue
                break
            else: continue
            del st.conds[c]

    def terminate(self, st, fr, b):
        su = b['s']
        t = b.get('t')
        if not t or len([s for s in su]) <= 1:
            if b.get('noret'): return []
            return [(s, st) for s in su if s >= 0]
        kind = t['s']
        if t.get('tmpdtor'):
            # the temporary exists iff the expression that makes it was evaluated
            e = t.get('e')
            lg = [x for x in b['e'] if x.get('k') == 'logic' and (fr.fid, 'br', x.get('i')) in st.env]
            if lg and len(su) == 2 and not (e and 'r' in e):
                x = lg[-1]
                made = (st.env[(fr.fid, 'br', x['i'])] == 0) == (x['op'] == '&&')
                return [(s, st.copy()) for s in [su[0] if made else su[1]] if s >= 0]
            if e and 'r' in e and len(su) == 2:
                k = (fr.fid, e['r'])
                s2 = st.copy()
                made = k in s2.env
                if made: del s2.env[k]
                return [(s, s2) for s in [su[0] if made else su[1]] if s >= 0]
            return [(s, st.copy()) for s in su if s >= 0]
        if kind == 'SwitchStmt':
            v = self.rval(st, fr, t['c'])
            out = []
            cases = [(s, fr.fn['B'][s].get('case')) for s in su if s >= 0]
            known = [c for _, c in cases if c is not None]
            for s, c in cases:
                if c is not None: cond = cmp('==', v, C(c))
                else:
                    cond = None
                s2 = st.copy()
                if cond is not None:
                    d = self.decide(st, cond)
                    if d is False: continue
                    if d is None: self.assume(s2, cond, True)
                    out.append((s, s2))
                    if d is True: return [(s, s2)]
                else:
                    ok = True
                    for k in known:
                        cc = cmp('==', v, C(k))
                        d = self.decide(st, cc)
                        if d is True: ok = False; break
                        if d is None: self.assume(s2, cc, False)
                    if ok: out.append((s, s2))
            if len(out) > 1:
                for h, body in loops_of(fr.fn).items():
                    if b['id'] in body and any(x not in body for x, _ in out):
                        for _, s2 in out: s2.sym = s2.sym | {(fr.fid, h)}
                for x, s2 in out: s2.path = (st.path, (fr.fn['file'], t.get('l'), 'case %s of %s' % (fr.fn['B'][x].get('case'), show(v))))
            return out
        if 'c' not in t or t['c'] is None or len(su) != 2:
            return [(s, st.copy()) for s in su if s >= 0]
        v = self.rval(st, fr, t['c'])
        if v is None: v = ('op', 'undef', C(str((fr.fn['n'], b['id']))))
        v = truth(v)
        d = self.decide(st, v)
        out = []
        for i, s in enumerate(su):
            if s < 0: continue
            want = (i == 0)
            if d is not None and d != want: continue
            s2 = st.copy()
            if 'i' in t: s2.env[(fr.fid, 'br', t['i'])] = i
            if d is None:
                self.assume(s2, v, want)
                s2.path = (st.path, (fr.fn['file'], t['l'], show(v) if want else 'not ' + show(v)))
                # loops controlled by an undecided condition are widened
                for h, body in loops_of(fr.fn).items():
                    if b['id'] in body and any(x >= 0 and x not in body for x in su):
                        s2.sym = s2.sym | {(fr.fid, h)}
                self.c.branch(self, s2, fr, v, want)
            out.append((s, s2))
        return out

    # ---------------------------------------------------------------- elements
    def exec_elem(self, st, fr, e):
        k = e['k']
        if k == 'call': return self.do_call(st, fr, e)
        if k == 'ctor': return self.do_ctor(st, fr, e)
        if k == 'decl':
            for v in e['v']:
                loc = ('v', fr.fid, v['d'])
                if v.get('static'):
                    continue
                if 'init' not in v:
                    for kk in [x for x in st.store if x == loc or (x[0] in ('f', 'e') and under(x, loc)) or (x[0] in ('hv', 'al') and (x[1] == loc or under(x[1], loc)))]: del st.store[kk]
                    continue
                val = self.val(st, fr, v['init'])
                if val is None: val = ('op', 'undef')
                if v.get('isref'):
                    st.store[loc] = self.addr(self.canon(st, val[1])) if val[0] in ('L', 'obj') else val
                elif val[0] == 'obj':
                    if val[1] != loc: st.store[loc] = val
                elif val[0] == 'op' and val[1] == 'list' and '[' in _ty(fr.fn, v['t']):
                    self.write(st, loc, ('op', 'undef'))
                    del st.store[loc]
                    for i, x in enumerate(val[2:]): st.store[('e', loc, C(i))] = x
                else:
                    x = self.load(st, val, fr, e)
                    self.c.write(self, st, fr, e, loc, x)
                    self.write(st, loc, x)
            return [st]
        if k == 'ret':
            if 'e' in e:
                v = self.val(st, fr, e['e'])
                if v is not None and v[0] == 'L' :
                    rt = _ty(fr.fn, fr.fn['ret'])
                    v = ('L', self.canon(st, v[1])) if rt.endswith('&') else self.load(st, v, fr, e)
                st.env[(fr.fid, 'ret')] = v
            self.c.leave(self, st, fr, st.env.get((fr.fid, 'ret')))
            return [st]
        if k == 'init':
            if 'f' in e:
                this = fr.this
                loc = ('f', self.deref(this), e['f'])
                v = self.val(st, fr, e['e'])
                if v is None: return [st]
                if e.get('isref'):
                    st.store[loc] = self.addr(self.canon(st, v[1])) if v[0] in ('L', 'obj') else v
                elif v[0] == 'obj':
                    if v[1] != loc: st.store[loc] = v
                elif v[0] == 'op' and v[1] == 'list':
                    self.write(st, loc, v)
                else:
                    x = self.load(st, v, fr, e)
                    self.c.write(self, st, fr, e, loc, x)
                    self.write(st, loc, x)
            return [st]
        if k in ('adtor', 'tdtor', 'bdtor', 'mdtor'):
            return self.do_dtor(st, fr, e)
        if k == 'delete':
            return self.do_delete(st, fr, e)
        v = self.eval(st, fr, e)[0]
        if k == 'throw': return []
        if 'i' in e and v is not None: st.env[(fr.fid, e['i'])] = v
        return [st]

    def do_delete(self, st, fr, e):
        v = self.rval(st, fr, e['e'])
        res = self.c.call(self, st, fr, e, 'operator delete' + ('[]' if e['arr'] else ''), None, [v])
        if res is not None: return [s for s, _ in res]
        d = e.get('dtor')
        if d and not e['arr']:
            loc = self.deref(v)
            out = []
            # deleting a null pointer does nothing
            isnull = self.decide(st, cmp('==', v, ZERO))
            if isnull is True: return [st]
            cands = [d['fn']]
            if d.get('virt'): cands = self.targets(st, fr, d, loc, d['fn'])
            for c in cands:
                f = self.p.funcs.get(c)
                if f is None or 'blocks' not in f or not self.c.inline(self, f, f['n']) or fr.depth >= self.c.max_depth:
                    out.append(st.copy()); continue
                for s, _ in self.exec_fn(f, v, [], st, fr.fid + (e.get('i', 'del'), c[-4:]), None, fr.depth + 1): out.append(s)
            return out or [st]
        return [st]

    def do_dtor(self, st, fr, e):
        k = e['k']
        if k == 'adtor':
            loc = self.canon(st, ('v', fr.fid, e['d']))
        elif k == 'mdtor': loc = self.canon(st, ('f', self.deref(fr.this), e['f']))
        elif k == 'bdtor': loc = self.deref(fr.this)
        else:
            v = self.val(st, fr, e['e'])
            if v is None: return [st]
            loc = v[1] if v[0] in ('obj', 'L') else None
            if loc is None: return [st]
        n = e.get('n', '')
        f = self.p.funcs.get(e.get('fn'))
        if k == 'bdtor' and f is None:
            f = self.p.dtor_of(fr.fn['T'][e['base']])
            if f is not None: n = f['n']
        r = self.c.dtor(self, st, fr, e, n, loc)
        if r is not None: return r
        if f is not None and 'blocks' in f and fr.depth < self.c.max_depth and self.c.inline(self, f, f['n']):
            return [s for s, _ in self.exec_fn(f, self.addr(loc), [], st, fr.fid + (('d', e.get('l'), e.get('f', e.get('d', e.get('base', k)))), 'dt'), None, fr.depth + 1)]
        return [st]

    def do_ctor(self, st, fr, e):
        tk = e.get('tk')
        if tk == 'var':
            loc = ('v', fr.fid, e['tgt'])
            for kk in [x for x in st.store if x == loc or (x[0] in ('f', 'e') and under(x, loc)) or (x[0] in ('hv', 'al') and (x[1] == loc or under(x[1], loc)))]: del st.store[kk]
        elif tk == 'field': loc = ('f', self.deref(fr.this), e['tgt'])
        elif tk == 'base': loc = self.deref(fr.this)
        elif tk == 'new':
            site = (fr.fid, e['tgt'])
            loc = ('h', site, st.cnt.get(site, 0), _ty(fr.fn, e['t']))
            st.env[(fr.fid, 'new', e['tgt'])] = loc
        else: loc = ('t', fr.fid, e.get('i'))
        cls = e.get('cls', '')
        args = [self.val(st, fr, a) for a in e['args']]
        i = e.get('i')
        def done(s, v=None):
            if i is not None: s.env[(fr.fid, i)] = v if v is not None else ('obj', loc)
            return s
        res = self.c.call(self, st, fr, e, e.get('n', ''), loc, args)
        if res is not None: return [done(s, v if v is not None else None) for s, v in res]
        if scalar_cls(cls):
            if args and args[0] is not None:
                v = self.load(st, args[0], fr, e)
                if v[0] == 'obj': v = self.read(st, v[1])
            else: v = C('') if 'basic_string' in cls else ('op', 'undef')
            if tk in ('var', 'field', 'base', 'new'):
                self.write(st, loc, v)
                return [done(st, ('obj', loc))]
            self.write(st, loc, v)
            return [done(st, ('obj', loc))]
        f = self.p.funcs.get(e.get('fn'))
        if e.get('copy') and (f is None or f.get('defaulted') or e.get('triv')):
            a = args[0]
            if a is not None and a[0] in ('L', 'obj'):
                self.copyobj(st, loc, self.canon(st, a[1]))
                return [done(st)]
        if f is not None and 'blocks' in f and fr.depth < self.c.max_depth and self.c.inline(self, f, f['n']):
            self.inlined += 1
            out = []
            for s, _ in self.exec_fn(f, self.addr(loc), args, st, fr.fid + (i, e['fn'][-4:]), None, fr.depth + 1):
                out.append(done(s))
            return out
        self.calls_seen += 1
        self.c.opaque(self, st, fr, e, e.get('n', ''), loc, args)
        return [done(st)]

    def targets(self, st, fr, node, loc, fid):
        """candidate target ids of a virtual call on an object at loc"""
        dyn = None
        r = self.canon(st, loc)
        if r[0] == 'h': dyn = r[3] if len(r) > 3 else None
        c = st.store.get(('dyn', r))
        if c is not None: dyn = c[1]
        over = self.p.overriders.get(fid, set())
        if dyn:
            order = [dyn] + self.p.all_bases(dyn)
            for cl in order:
                c = self.p.classes.get(cl)
                if not c: continue
                for m in c['methods']:
                    if m['id'] == fid or m['id'] in over: return [m['id']]
        cands = [m for m in ([fid] + sorted(over)) if m in self.p.funcs]
        return cands or [fid]

    def do_call(self, st, fr, e):
        i = e.get('i')
        def done(s, v):
            if i is not None and v is not None: s.env[(fr.fid, i)] = v
            return s
        args = [self.val(st, fr, a) for a in e['args']]
        pt = e.get('pt', [])
        # by-value scalars are loaded here (default arguments etc.)
        for j, a in enumerate(args):
            if a is not None and a[0] == 'L' and j < len(pt) and not _ty(fr.fn, pt[j]).rstrip().endswith('&'):
                if a[0] == 'L': args[j] = self.load(st, a, fr, e)
        name = e.get('n') or ''
        obj = None
        if 'obj' in e:
            o = self.val(st, fr, e['obj'])
            if o is not None:
                if e.get('objptr'): obj = self.deref(self.load(st, o, fr, e))
                elif o[0] in ('L', 'obj'): obj = self.canon(st, o[1])
                else: obj = ('d', o) if o[0] != '&' else o[1]
        self.calls_seen += 1
        res = self.c.call(self, st, fr, e, name, obj, args)
        if res is not None: return [done(s, v) for s, v in res]
        # indirect calls
        fid = e.get('fn')
        this = self.addr(obj) if obj is not None else None
        if fid is None:
            cv = self.val(st, fr, e.get('callee'))
            cv = self.load(st, cv) if cv is not None else None
            if cv is not None and cv[0] == 'op' and cv[1] == 'mp':
                o, f = cv[2], cv[3]
                if o is not None and o[0] == 'L': this = self.addr(self.canon(st, o[1]))
                elif o is not None: this = self.load(st, o)
                if f is not None and f[0] == '&' : f = ('fn', None, '')
                if f is not None and f[0] == 'fn': fid = f[1]; name = f[2]
            elif cv is not None and cv[0] == 'fn': fid = cv[1]; name = cv[2]
            if fid is not None:
                res = self.c.call(self, st, fr, dict(e, n=name, fn=fid), name, self.deref(this) if this else None, args)
                if res is not None: return [done(s, v) for s, v in res]
        outer = None
        # lambdas
        if e.get('oper') == '()' and obj is not None:
            lv = self.read(st, obj)
            if lv[0] == 'lam': pass
        m = self.model(st, fr, e, name, obj, args)
        if m is not None: return [done(s, v) for s, v in m]
        cands = [fid]
        if e.get('virt') and obj is not None:
            cands = self.c.virtual(self, st, fr, e, obj, self.targets(st, fr, e, obj, fid))
        out = []
        for c in cands:
            f = self.p.funcs.get(c)
            if f is not None and 'blocks' in f and fr.depth < self.c.max_depth and fr.fid.count(c[-6:]) < 2 and self.c.inline(self, f, f['n']):
                self.inlined += 1
                of = fr if f['n'].endswith('::operator()') and 'lambda' in f.get('clsfull', '') else None
                s1 = st.copy() if len(cands) > 1 else st
                if len(cands) > 1: s1.path = (s1.path, (fr.fn['file'], e.get('l'), 'dispatch to ' + f.get('clsfull', '') + '::' + f['sn']))
                for s, rv in self.exec_fn(f, this if of is None else None, args, s1, fr.fid + (i, c[-6:]), of, fr.depth + 1):
                    if rv is not None and rv[0] == 'L' and not _ty(f, f['ret']).endswith('&'): rv = self.load(s, rv)
                    out.append(done(s, rv if rv is not None else ('op', 'void')))
            else:
                s = st.copy() if len(cands) > 1 else st
                out.append(done(s, self.do_opaque(s, fr, e, name or (f and f['n']) or '?', obj, args)))
        return out

    def do_opaque(self, st, fr, e, name, obj, args):
        self.opaque_names.add(name)
        site = (fr.fid, e.get('i'))
        n = self.count(st, site)
        pt = e.get('pt', [])
        for j, a in enumerate(args):
            if a is None: continue
            t = _ty(fr.fn, pt[j]) if j < len(pt) else ''
            if t.endswith('&&'): continue
            loc = None
            if t.endswith('&') and not t.startswith('const ') and a[0] in ('L', 'obj'): loc = self.canon(st, a[1])
            elif t.endswith('*') and not t.startswith('const ') and a[0] == '&': loc = a[1]
            if loc is not None:
                sym = ('o', site, n, j)
                l0 = loc[1] if loc[0] == 'e' and loc[2] == ZERO else loc
                self.havoc(st, l0, sym)
                if l0 is loc or True: self.c.write(self, st, fr, e, l0, sym)
                if not self._isrec(t):
                    pass
        self.c.opaque(self, st, fr, e, name, obj, args)
        if obj is not None and not e.get('cm') and obj[0] != 'd' and self.p.funcs.get(e.get('fn')) is None and name.startswith('std::'):
            self.havoc(st, obj, ('o', site, n, 'this'))
        return ('r', site, n, name)
    def _isrec(self, t): return False

    # maps: entry k of map m is m.#map[k].{first,second}; m.#in[k] tells whether it exists
    def mapver(self, st, obj):
        v = st.store.get(('f', obj, '#ver'))
        return v if v else ZERO
    def mapput(self, st, obj, k, present):
        self.c.mapop(self, st, obj, k, present)
        b = ('f', obj, '#in')
        if not is_c(k):      # other keys may be this one
            for x in [x for x in st.store if x[0] == 'e' and x[1] == b and x[2] != k]: del st.store[x]
        else:
            for x in [x for x in st.store if x[0] == 'e' and x[1] == b and not is_c(x[2])]: del st.store[x]
        st.store[('e', b, k)] = present
        st.store[('f', obj, '#ver')] = add(self.mapver(st, obj), ONE)
        if present == ZERO:
            e = ('e', ('f', obj, '#map'), k)
            for x in [x for x in st.store if x[0] in ('f', 'e') and under(x, e)]: del st.store[x]
    def mapfact(self, st, obj, k):
        v = st.store.get(('e', ('f', obj, '#in'), k))
        if v is not None: return v
        h = st.store.get(('hv', ('f', obj, '#in')))
        if h is not None and h == ZERO and all(is_c(x[2]) and is_c(k) for x in st.store if x[0] == 'e' and x[1] == ('f', obj, '#in')): return ZERO
        return ('op', 'in', self.addr(obj), k, self.mapver(st, obj))
    def mapkeys(self, st, obj):
        """the keys of a map whose content is known exactly (None otherwise)"""
        b = ('f', obj, '#in')
        if st.store.get(('hv', b)) != ZERO: return None
        m = {x[2]: v for x, v in st.store.items() if x[0] == 'e' and x[1] == b}
        if not all(is_c(k) and v in (ZERO, ONE) for k, v in m.items()): return None
        return sorted(k for k in m if m[k] == ONE)
    def mapin(self, st, obj, k):
        return self.decide(st, truth(self.mapfact(st, obj, k)))

    # models of a few standard functions (pure value functions and iterators)
    def model(self, st, fr, e, name, obj, args):
        L = lambda x: self.load(st, x, fr, e)
        one = lambda v: [(st, v)]
        if name in ('std::min', 'std::max') and len(args) == 2:
            return one(fnop(name[5:], L(args[0]), L(args[1])))
        if name in ('std::abs', 'abs', 'fabs', 'std::fabs', 'labs') and args: return one(fnop('abs', L(args[0])))
        if name in ('std::floor', 'floor', 'std::ceil', 'ceil', 'std::isinf', 'std::isnan', 'isinf', 'isnan', 'round', 'std::round', 'lround', 'rint', 'std::rint', 'nearbyint', 'std::nearbyint', 'trunc', 'std::trunc', 'std::lround', 'lrint',
                    '__builtin_isinf_sign', 'std::isfinite', 'isfinite'):
            b = name.split('::')[-1]
            return one(fnop('isinf' if 'isinf' in b else b, L(args[0])))
        if name == 'std::numeric_limits::infinity': return one(('op', 'inf'))
        if name in ('std::move', 'std::forward', 'std::addressof', 'std::__addressof') and args:
            a = args[0]
            if 'address' in name: return one(self.addr(self.canon(st, a[1])) if a[0] in ('L', 'obj') else a)
            return one(a)
        if name in ('std::fill_n', 'std::fill', 'std::copy', 'std::copy_n') and len(args) == 3:
            a0 = L(args[0])
            if name == 'std::fill_n': dst, n, src = a0, L(args[1]), ('val', L(args[2]))
            elif name == 'std::fill': dst, n, src = a0, self.pdiff(L(args[1]), a0), ('val', L(args[2]))
            elif name == 'std::copy': dst, n, src = L(args[2]), self.pdiff(L(args[1]), a0), ('ptr', a0)
            else: dst, n, src = L(args[2]), L(args[1]), ('ptr', a0)
            if is_num(n) and 0 <= n[1] <= 64:
                vals = [src[1] if src[0] == 'val' else self.read(st, self.canon(st, self.elem_loc(src[1], C(k)))) for k in range(int(n[1]))]
                for k, v in enumerate(vals):
                    l = self.canon(st, self.elem_loc(dst, C(k)))
                    self.c.write(self, st, fr, e, l, v); self.write(st, l, v)
                return one(self.ptradd(dst, n))
            return None
        if name == 'std::make_pair' and len(args) == 2: return one(('op', 'pair', L(args[0]), L(args[1])))
        if name in ('std::swap',) and len(args) == 2 and all(a and a[0] == 'L' for a in args):
            a, b = L(args[0]), L(args[1])
            la, lb = self.canon(st, args[0][1]), self.canon(st, args[1][1])
            self.c.write(self, st, fr, e, la, b); self.write(st, la, b)
            self.c.write(self, st, fr, e, lb, a); self.write(st, lb, a)
            return one(ZERO)
        base = name.rsplit('::', 1)
        cls, mth = (base[0], base[1]) if len(base) == 2 else ('', name)
        cb = cls.split('::')[-1]
        if cls.startswith('std::') or cls.startswith('__gnu_cxx'):
            if cb in ('vector', 'array', 'deque'):
                if mth in ('operator[]', 'at'): return one(('L', ('e', obj, L(args[0]))))
                if mth in ('front', ): return one(('L', ('e', obj, ZERO)))
                if mth == 'size': return one(self.read(st, ('f', obj, '#size')))
                if mth == 'empty': return one(cmp('==', self.read(st, ('f', obj, '#size')), ZERO))
                if mth == 'back': return one(('L', ('e', obj, sub(self.read(st, ('f', obj, '#size')), ONE))))
                if mth in ('begin', 'cbegin', 'data'): return one(('&', ('e', obj, ZERO)))
                if mth in ('end', 'cend'): return one(('&', ('e', obj, self.read(st, ('f', obj, '#size')))))
                if mth == 'resize':
                    v = L(args[0])
                    self.opaque_names.add(name)
                    self.c.opaque(self, st, fr, e, name, obj, args)
                    st.store[('f', obj, '#size')] = v
                    return one(ZERO)
                if mth == 'push_back':
                    sz = self.read(st, ('f', obj, '#size'))
                    v = args[0]
                    if v is not None and (v[0] == 'obj' or (v[0] == 'L' and st.store.get(self.canon(st, v[1])) is None and any(under(k, self.canon(st, v[1])) for k in st.store))):
                        self.copyobj(st, ('e', obj, sz), self.canon(st, v[1]))
                    else:
                        x = L(v)
                        self.c.write(self, st, fr, e, ('e', obj, sz), x)
                        self.write(st, ('e', obj, sz), x)
                    st.store[('f', obj, '#size')] = add(sz, ONE)
                    self.c.opaque(self, st, fr, e, name, obj, args)
                    return one(ZERO)
            if cb in MAPS and obj is not None:
                ent = lambda key: ('e', ('f', obj, '#map'), key)
                a = self.addr(obj)
                if mth == 'find':
                    return one(('op', 'mapit', a, L(args[0]), self.mapver(st, obj)))
                if mth in ('end', 'cend'): return one(('op', 'mapend', a))
                if mth in ('size', 'empty') and self.mapkeys(st, obj) is not None:
                    n = len(self.mapkeys(st, obj)); return one(C(n) if mth == 'size' else C(int(n == 0)))
                if mth in ('begin', 'cbegin') and self.mapkeys(st, obj) is not None:
                    ks = self.mapkeys(st, obj)
                    return one(('op', 'mapit', a, ks[0], self.mapver(st, obj)) if ks else ('op', 'mapend', a))
                if mth in ('begin', 'cbegin'):
                    st.store[('f', obj, '#ver')] = self.mapver(st, obj)
                    return one(('op', 'mapit', a, ('op', 'mapfirst', a, self.mapver(st, obj)), self.mapver(st, obj)))
                if mth in ('operator[]', 'at'):
                    k = L(args[0]); l = ('f', ent(k), 'second')
                    if mth == 'operator[]' and l not in st.store:
                        d = self.mapin(st, obj, k)
                        if d is False: self.write(st, l, ZERO)
                        if d is not True: self.mapput(st, obj, k, ONE)
                    st.store[('f', ent(k), 'first')] = k
                    return one(('L', l))
                if mth in ('emplace', 'try_emplace', 'insert', 'insert_or_assign') and args:
                    if mth == 'insert' and len(args) == 1:
                        v = L(args[0])
                        if v[0] == 'obj': v = self.read(st, v[1])
                        kv = v[2:] if v[0] == 'op' and v[1] == 'pair' else None
                    elif len(args) == 2: kv = (L(args[0]), L(args[1]))
                    else: kv = None
                    if kv is not None:
                        k = kv[0]; d = self.mapin(st, obj, k); out = []
                        if d is None and mth != 'insert_or_assign':
                            d = self.c.mapnew(self, st, obj, k)
                            if d is not None: self.assume(st, truth(self.mapfact(st, obj, k)), d)
                        for pres in ([d] if d is not None else [True, False]):
                            s2 = st.copy() if d is None else st
                            if d is None: self.assume(s2, truth(self.mapfact(s2, obj, k)), pres)
                            if not pres or mth == 'insert_or_assign':
                                l = ('f', ent(k), 'second')
                                if not pres: self.mapput(s2, obj, k, ONE)
                                s2.store[('f', ent(k), 'first')] = k
                                src = self.canon(s2, kv[1][1]) if kv[1][0] in ('i', 'obj') else None
                                if src is not None and (kv[1][0] == 'obj' or any(x[0] in ('f', 'e') and x != src and under(x, src) for x in s2.store)): self.copyobj(s2, l, src)
                                else: self.c.write(self, s2, fr, e, l, kv[1]); self.write(s2, l, kv[1])
                            out.append((s2, ('op', 'pair', ('op', 'mapit', a, k, self.mapver(s2, obj)), C(int(not pres)))))
                        return out
                if mth == 'count': return one(truth(self.mapfact(st, obj, L(args[0]))))
                if mth == 'erase' and len(args) == 1:
                    k = L(args[0])
                    if k[0] == 'obj': k = self.read(st, k[1])
                    if k[0] == 'op' and k[1] == 'mapit': k = k[3]
                    self.mapput(st, obj, k, ZERO)
                    self.c.opaque(self, st, fr, e, name, obj, args)
                    return one(ONE)
                if mth == 'clear':
                    dead = [x for x in st.store if under(x, ('f', obj, '#map')) or under(x, ('f', obj, '#in'))]
                    for x in dead: del st.store[x]
                    st.store[('hv', ('f', obj, '#in'))] = ZERO; st.store[('f', obj, '#size')] = ZERO
                    self.c.opaque(self, st, fr, e, name, obj, args)
                    return one(ZERO)
            if cb in MAPIT and obj is not None:
                v = self.read(st, obj)
                if v[0] == 'op' and v[1] == 'mapit':
                    mo = self.deref(v[2]); l = ('e', ('f', mo, '#map'), v[3])
                    st.store[('f', l, 'first')] = v[3]
                    if mth == 'operator*': return one(('L', l))
                    if mth == 'operator->': return one(('&', l))
                    if mth == 'operator++' and is_c(v[3]) and self.mapkeys(st, mo) is not None:
                        ks = [k for k in self.mapkeys(st, mo) if k > v[3]]
                        self.write(st, obj, ('op', 'mapit', v[2], ks[0], v[4]) if ks else ('op', 'mapend', v[2]))
                        return one(v if args else ('L', obj))
                    if mth in ('operator++', 'operator--'):
                        nv = ('op', 'mapit', v[2], ('op', 'mapnext', v[3]), v[4])
                        if v[3][:2] == ('op', 'mapnext'): nv = ('op', 'mapit', v[2], ('op', 'mapnext', ('phi', fr.fid, 'it', e.get('i'))), v[4])
                        self.write(st, obj, nv)
                        return one(v if args else ('L', obj))
                if mth == 'operator=' and args:
                    x = L(args[0])
                    if x[0] == 'obj': x = self.read(st, x[1])
                    self.write(st, obj, x); return one(('L', obj))
            if cb in ('list',) + MAPS and obj is not None:
                if mth == 'size': return one(self.read(st, ('f', obj, '#size')))
                if mth == 'empty': return one(cmp('==', self.read(st, ('f', obj, '#size')), ZERO))
            if cb in ('__normal_iterator',):
                if mth == 'operator*': return one(('L', self.deref(self.read(st, obj))))
                if mth == 'operator->': return one(self.read(st, obj))
                if mth == 'operator[]': return one(('L', self.elem_loc(self.read(st, obj), L(args[0]))))
                if mth in ('operator++', 'operator--'):
                    old = self.read(st, obj)
                    self.write(st, obj, self.ptradd(old, ONE, 1 if mth[-1] == '+' else -1))
                    return one(old if args else ('L', obj))
                if mth in ('operator+', 'operator-') and args: return one(self.ptradd(self.read(st, obj), L(args[0]), 1 if mth[-1] == '+' else -1))
                if mth == 'operator+=' : self.write(st, obj, self.ptradd(self.read(st, obj), L(args[0]))); return one(('L', obj))
                if mth == 'operator=' : self.write(st, obj, L(args[0])); return one(('L', obj))
                if mth == 'base': return one(('L', obj))
            if cb in ('basic_string',):
                if mth == 'operator=': self.write(st, obj, L(args[0])); return one(('L', obj))
                if mth in ('c_str', 'data'): return one(self.read(st, obj))
                if mth in ('size', 'length'): return one(fnop('strlen', self.read(st, obj)) if not (is_c(self.read(st, obj))) else C(len(self.read(st, obj)[1])))
                if mth == 'empty':
                    v = self.read(st, obj)
                    return one(cmp('==', v, C('')))
                if mth == 'compare' and len(args) == 1:
                    return one(fnop('strcmp', self.read(st, obj), L(args[0])))
        if name in ('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<') and len(args) == 2:
            return one(cmp(name.split('operator')[1], L(args[0]), L(args[1])))
        if name in ('std::__detail::operator==', 'std::__detail::operator!=', 'std::operator==', 'std::operator!=') and len(args) == 2:
            vs = []
            for a in args:
                v = L(a)
                if v[0] == 'obj': v = self.read(st, v[1])
                vs.append(v)
            kinds = [v[1] if v[0] == 'op' else None for v in vs]
            if kinds == ['mapend', 'mapend']: return one(C(int(name.endswith('=='))))
            if 'mapit' in kinds and 'mapend' in kinds:
                it = vs[kinds.index('mapit')]
                mo = self.deref(it[2])
                if it[3][0] == 'op' and it[3][1] in ('mapfirst', 'mapnext'): f = ('op', 'mapmore', it[2], it[3])
                else: f = self.mapfact(st, mo, it[3])
                f = truth(f)
                return one(lnot(f) if name.endswith('==') else f)
        if name in ('std::operator==', 'std::operator!=') and len(args) == 2:
            a, b = L(args[0]), L(args[1])
            return one(cmp(name[-2:], a, b))
        if name == 'std::operator+' and len(args) == 2:
            a, b = L(args[0]), L(args[1])
            return one(C(a[1] + b[1]) if is_c(a) and is_c(b) and isinstance(a[1], str) and isinstance(b[1], str) else fnop('concat', a, b))
        if name in ('strcmp', 'std::strcmp') and len(args) == 2:
            return one(fnop('strcmp', L(args[0]), L(args[1])))
        return None


def walk_nodes(fn):
    """all expression nodes of a function (elements and nested)"""
    def rec(x):
        if isinstance(x, dict):
            if 'k' in x: yield x
            for v in x.values():
                if isinstance(v, (dict, list)): yield from rec(v)
        elif isinstance(x, list):
            for v in x: yield from rec(v)
    for b in fn.get('blocks', []):
        for e in b['e']: yield from rec(e)

def calls(fn):
    for n in walk_nodes(fn):
        if n['k'] in ('call', 'ctor'): yield n
