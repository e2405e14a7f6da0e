"""Value terms: hash-consed tuples in a normal form (value numbering domain).

 ('c', v)            constant (int, float, str)
 ('&', loc)          address of a location
 ('i', loc)          content of a location at entry of the analysed root
 ('r', site, n, fn)  result of an opaque call
 ('o', site, n, k)   content written by an opaque call to its k-th argument
 ('phi', ...)        join/widening value
 ('poly', c0, ((mono, coef), ...))   polynomial over other terms
 ('op', name, a, b)  anything else
"""
from fractions import Fraction

def C(v): return ('c', int(v) if isinstance(v, bool) else v)
ZERO, ONE = C(0), C(1)
def is_c(t): return t[0] == 'c'
def is_num(t): return t[0] == 'c' and isinstance(t[1], (int, float))

# ---- polynomials
def _topoly(t):
    """term -> (c0, {mono: coef})"""
    if t[0] == 'c' and isinstance(t[1], (int, float)): return t[1], {}
    if t[0] == 'poly': return t[1], dict(t[2])
    return 0, {(t,): 1}

def _mk(c0, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m: return C(c0)
    if c0 == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1 and len(k) == 1: return k[0]
    return ('poly', c0, tuple(sorted(m.items(), key=repr)))

def add(a, b, sb=1):
    ca, ma = _topoly(a); cb, mb = _topoly(b)
    m = dict(ma)
    for k, v in mb.items(): m[k] = m.get(k, 0) + sb * v
    return _mk(ca + sb * cb, m)
def sub(a, b): return add(a, b, -1)
def mul(a, b):
    ca, ma = _topoly(a); cb, mb = _topoly(b)
    m = {}
    for k, v in ma.items():
        if cb: m[k] = m.get(k, 0) + v * cb
    for k, v in mb.items():
        if ca: m[k] = m.get(k, 0) + v * ca
    for k1, v1 in ma.items():
        for k2, v2 in mb.items():
            k = tuple(sorted(k1 + k2, key=repr))
            m[k] = m.get(k, 0) + v1 * v2
    return _mk(ca * cb, m)

def _cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q

NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}

def nonnull(t):
    return t[0] in ('&', 'fn', 'lam') or (t[0] == 'c' and isinstance(t[1], str))

def cmp(op, a, b):
    if is_c(a) and is_c(b):
        x, y = a[1], b[1]
        if isinstance(x, str) != isinstance(y, str):
            if op == '==': return C(0)
            if op == '!=': return C(1)
        else:
            try:
                return C({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            except TypeError: pass
    if a == b and a[0] != 'flt':
        if op in ('==', '<=', '>='): return ONE
        return ZERO
    if op in ('==', '!='):
        for x, y in ((a, b), (b, a)):
            if y == ZERO and nonnull(x): return C(op == '!=')
            # (cond) != 0  ->  cond
            if y == ZERO and is_bool(x): return x if op == '!=' else lnot(x)
            if y == ONE and is_bool(x): return x if op == '==' else lnot(x)
        if a[0] == '&' and b[0] == '&':
            x, y = a[1], b[1]
            if x[0] == 'e' and y[0] == 'e' and x[1] == y[1]: return cmp(op, x[2], y[2])
            if x[0] in 'vgh' and y[0] in 'vgh' and x != y: return C(op == '!=')
        if 'poly' in (a[0], b[0]):      # n * (x / n) == x  is  x % n == 0
            d = sub(a, b)
            if is_num(d) and a[0] in ('poly', 'op', 'i', 'r') and b[0] in ('poly', 'op', 'i', 'r'): return C((d[1] == 0) == (op == '=='))
            if d[0] == 'poly' and d[1] == 0 and len(d[2]) == 2:
                for (m, k), (m2, k2) in (d[2], d[2][::-1]):
                    if len(m) == 1 and m[0][:2] == ('op', '/') and abs(k2) == 1 and len(m2) == 1 and m2[0] == m[0][2] and is_num(m[0][3]) and m[0][3][1] == -k * k2: return cmp(op, binop('%', m[0][2], m[0][3]), ZERO)
        if repr(a) > repr(b): a, b = b, a
        return ('op', op, a, b)
    if a[0] == '&' and b[0] == '&' and a[1][0] == 'e' and b[1][0] == 'e' and a[1][1] == b[1][1]:
        return cmp(op, a[1][2], b[1][2])
    # canonical: only < and >= with the operands ordered as  a < b / a >= b ; a > b -> b < a ; a <= b -> b >= a
    if op == '>': return cmp('<', b, a)
    if op == '<=': return cmp('>=', b, a)
    return ('op', op, a, b)

def is_bool(t):
    return t[0] == 'op' and t[1] in ('==', '!=', '<', '>=', 'f<', 'f>=', '!', 'isinf', 'isnan', 'isfinite', 'streq', 'and', 'or')

def lnot(t):
    if is_c(t): return C(not t[1])
    if t[0] == 'op' and t[1] in NEG: return cmp(NEG[t[1]], t[2], t[3])
    if t[0] == 'op' and t[1] == '!': return t[2] if is_bool(t[2]) else cmp('!=', t[2], ZERO)
    return ('op', '!', t)

def truth(t):
    if is_c(t): return C(bool(t[1]) if not isinstance(t[1], str) else True)
    if nonnull(t): return ONE
    if is_bool(t): return t
    return cmp('!=', t, ZERO)

def atom(t):
    """(canonical atom, polarity) of a boolean term"""
    t = truth(t)
    pol = True
    while t[0] == 'op' and t[1] in ('!', '!=', '>='):
        if t[1] == '!': t = truth(t[2])
        else: t = ('op', NEG[t[1]], t[2], t[3])
        pol = not pol
    return t, pol

EXACTDIV = False     # (x*c + r) / c = x and (x*c + r) % c = r for 0 <= r < c (non-negative, no overflow)
def _exact(op, a, b):
    if not (EXACTDIV and b[0] == 'c' and isinstance(b[1], int) and b[1] > 1 and a[0] == 'poly'): return None
    if a[1] < 0 or any(k % b[1] for _, k in a[2]): return None
    return _mk(a[1] // b[1], {m: k // b[1] for m, k in a[2]}) if op == '/' else C(a[1] % b[1])

def binop(op, a, b):
    if op in '/%':
        q = _exact(op, a, b)
        if q is not None: return q
    if op == '+':
        if isinstance(a[1], str) and a[0] == 'c' and b[0] == 'c': return C(str(a[1]) + str(b[1]))
        return add(a, b)
    if op == '-': return sub(a, b)
    if op == '*': return mul(a, b)
    if op in NEG: return cmp(op, a, b)
    if is_num(a) and is_num(b):
        x, y = a[1], b[1]
        try:
            if op == '/':
                if isinstance(x, float) or isinstance(y, float): return C(x / y)
                return C(_cdiv(x, y))
            if op == '%': return C(x - y * _cdiv(x, y))
            if op == '&': return C(x & y)
            if op == '|': return C(x | y)
            if op == '^': return C(x ^ y)
            if op == '<<': return C(x << y)
            if op == '>>': return C(x >> y)
        except (ZeroDivisionError, TypeError): pass
    if op in ('/', '*') and b == ONE: return a
    if op == '%' and b == ONE: return ZERO
    if op in ('/', '%') and a == ZERO: return ZERO
    if op in ('|', '&', '^') :
        if repr(a) > repr(b): a, b = b, a
        if op in ('|', '^') and a == ZERO: return b
        if op in ('|', '^') and b == ZERO: return a
    if op in ('<<', '>>') and b == ZERO: return a
    return ('op', op, a, b)

def fnop(name, *args):
    if name in ('min', 'max') and len(args) == 2:
        a, b = args
        if is_num(a) and is_num(b): return C((min if name == 'min' else max)(a[1], b[1]))
        if a == b: return a
        if repr(a) > repr(b): a, b = b, a
        return ('op', name, a, b)
    return ('op', name) + tuple(args)

def wrap(t, w):
    """reduction to a narrower integer type"""
    if is_num(t): return C(wrapint(t[1], w)) if isinstance(t[1], int) else t
    if is_bool(t): return t
    return ('op', w, t)

def wrapint(v, w):
    b = int(w[1:]); v &= (1 << b) - 1
    if w[0] == 'i' and v >= 1 << (b - 1): v -= 1 << b
    return v

class Unknown(Exception): pass

def evaluate(t, leaf):
    """value of a term when its leaves have the constant values leaf(symbol)"""
    import math
    k = t[0]
    if k == 'c': return t[1]
    if k == 'poly':
        acc = t[1]
        for m, c in t[2]:
            x = c
            for y in m:
                v = evaluate(y, leaf)
                if v == 'undefined': return v
                x = x * v
            acc = acc + x
        return acc
    if k == 'op':
        o = t[1]
        if o == 'inf': return math.inf
        if o in ('?:',):
            c = evaluate(t[2], leaf)
            return c if c == 'undefined' else evaluate(t[3] if c else t[4], leaf)
        if o == 'and': return int(bool(evaluate(t[2], leaf)) and bool(evaluate(t[3], leaf)))
        if o == 'or': return int(bool(evaluate(t[2], leaf)) or bool(evaluate(t[3], leaf)))
        try: return leaf(t)
        except Unknown: pass
        a = [evaluate(x, leaf) for x in t[2:]]
        if 'undefined' in a: return 'undefined'
        try:
            if o == '/': return _cdiv(a[0], a[1]) if isinstance(a[0], int) and isinstance(a[1], int) else a[0] / a[1]
            if o == '%': return a[0] - a[1] * _cdiv(a[0], a[1])
            if o == 'f/':
                if a[1] == 0: return math.nan if a[0] == 0 or a[0] != a[0] else math.copysign(math.inf, a[0]) * math.copysign(1, a[1])
                return a[0] / a[1]
            if o in ('==',): return int(a[0] == a[1])
            if o in ('!=',): return int(a[0] != a[1])
            if o in ('<', 'f<'): return int(a[0] < a[1])
            if o in ('>=', 'f>='): return int(a[0] >= a[1])
            if o == '!': return int(not a[0])
            if o in ('&', '|', '^', '<<', '>>'): return binop(o, C(a[0]), C(a[1]))[1]
            if o == '~': return ~a[0]
            if o == 'min': return min(a)
            if o == 'max': return max(a)
            if o == 'abs': return abs(a[0])
            if o == 'floor': return float(math.floor(a[0])) if math.isfinite(a[0]) else a[0]
            if o == 'ceil': return float(math.ceil(a[0])) if math.isfinite(a[0]) else a[0]
            if o in ('round', 'lround'): return float(math.floor(abs(a[0]) + 0.5)) * (1 if a[0] >= 0 else -1) if math.isfinite(a[0]) else a[0]
            if o in ('rint', 'nearbyint', 'lrint'): return float(round(a[0])) if math.isfinite(a[0]) else a[0]
            if o == 'trunc': return float(math.trunc(a[0])) if math.isfinite(a[0]) else a[0]
            if o == 'isinf': return int(math.isinf(a[0]))
            if o == 'isnan': return int(a[0] != a[0])
            if o == 'isfinite': return int(math.isfinite(a[0]))
            if o == 'f2i':
                if not math.isfinite(a[0]): return 'undefined'
                return int(a[0])
            if o in ('i32', 'u32', 'u8', 'i8', 'i16', 'u16'): return wrapint(a[0], o)
            if o == 'strlen': return len(a[0])
        except ZeroDivisionError: return 'undefined'
        raise Unknown(show(t))
    return leaf(t)

# ---- traversal
_symcache = {}
def syms(t):
    """leaf symbols of a term (also those inside locations)"""
    r = _symcache.get(t)
    if r is not None: return r
    k = t[0]
    if k == 'c': r = frozenset()
    elif k in ('r', 'o', 'phi', 'fn', 'w'): r = frozenset((t,))
    elif k == 'i': r = frozenset((t,)) | locsyms(t[1])
    elif k == '&' or k == 'obj' or k == 'L': r = locsyms(t[1])
    elif k == 'poly':
        r = frozenset()
        for m, _ in t[2]:
            for x in m: r |= syms(x)
    elif k == 'op':
        r = frozenset()
        for x in t[2:]:
            if isinstance(x, tuple): r |= syms(x)
    else:
        r = frozenset((t,))
    if len(_symcache) > 500000: _symcache.clear()
    _symcache[t] = r
    return r

def locsyms(l):
    k = l[0]
    if k == 'f': return locsyms(l[1])
    if k == 'e': return locsyms(l[1]) | syms(l[2])
    if k == 'd': return syms(l[1])
    return frozenset()

def locroot(l):
    while l[0] in ('f', 'e'): l = l[1]
    return l

def prefixes(l):
    while l[0] in ('f', 'e'):
        l = l[1]
        yield l

def under(l, base):
    """l lies strictly below base"""
    while l[0] in ('f', 'e'):
        l = l[1]
        if l == base: return True
    return False

def subst(t, f):
    """bottom-up rewriting of a term: f(term) -> term or None"""
    k = t[0]
    if k == 'poly':
        acc = C(t[1])
        for m, cf in t[2]:
            x = C(cf)
            for y in m: x = mul(x, subst(y, f))
            acc = add(acc, x)
        t2 = acc
    elif k == 'op':
        args = [subst(x, f) if isinstance(x, tuple) else x for x in t[2:]]
        if t[1] in NEG and len(args) == 2: t2 = cmp(t[1], *args)
        elif t[1] == '!': t2 = lnot(args[0])
        elif t[1] in ('/', '%', '&', '|', '^', '<<', '>>') and len(args) == 2: t2 = binop(t[1], *args)
        elif t[1] in ('min', 'max'): t2 = fnop(t[1], *args)
        else: t2 = ('op', t[1]) + tuple(args)
    elif k == '&': t2 = ('&', substloc(t[1], f))
    elif k == 'i': t2 = ('i', substloc(t[1], f))
    else: t2 = t
    r = f(t2)
    return t2 if r is None else r

def same(a, b):
    """equal numbers: remainders are compared through their quotients"""
    if a == b: return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)): return False
    f = lambda t: sub(t[2], mul(t[3], binop('/', t[2], t[3]))) if t[0] == 'op' and t[1] == '%' and len(t) == 4 else None
    return subst(a, f) == subst(b, f)

def substloc(l, f):
    if l[0] == 'f': return ('f', substloc(l[1], f), l[2])
    if l[0] == 'e': return ('e', substloc(l[1], f), subst(l[2], f))
    if l[0] == 'd':
        p = subst(l[1], f)
        return p[1] if p[0] == '&' else ('d', p)
    return l

# ---- printing
def show(t, depth=0):
    if not isinstance(t, tuple): return str(t)
    if depth > 8: return '...'
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == 'c': return repr(t[1])
    if k == '&': return '&' + showloc(t[1], depth + 1)
    if k == 'i': return showloc(t[1], depth + 1)
    if k == 'r': return '%s()' % t[3]
    if k == 'o': return 'out(%s)' % (t[1],)  if not isinstance(t[1], tuple) else 'out'
    if k == 'phi': return 'loopval(%s)' % showloc(t[-1], depth + 1) if isinstance(t[-1], tuple) else 'loopval'
    if k == 'poly':
        out = []
        for m, c in t[2]:
            x = '*'.join(s(y) for y in m)
            out.append(x if c == 1 else '%s*%s' % (c, x))
        if t[1]: out.append(str(t[1]))
        return '(' + ' + '.join(out) + ')'
    if k == 'op':
        if len(t) == 4: return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    return str(k)

def showloc(l, depth=0):
    if depth > 10: return '...'
    k = l[0]
    if k == 'f':
        b = l[1]
        return showloc(b, depth + 1) + '.' + l[2]
    if k == 'e': return '%s[%s]' % (showloc(l[1], depth + 1), show(l[2], depth + 1))
    if k == 'd':
        if l[1] == ('i', ('this',)): return 'this'
        return '(*%s)' % show(l[1], depth + 1)
    if k == 'v': return str(l[2]).split(':')[1] if ':' in str(l[2]) else str(l[2])
    if k == 'g': return 'global ' + str(l[1])
    if k == 'this': return 'this'
    if k == 'p': return l[1]
    return k
