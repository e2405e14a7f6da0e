"""Linear integer reasoning over path conditions (Fourier-Motzkin elimination on a handful of facts)."""
from fractions import Fraction
from .terms import *
from .engine import *

def lin(t):
    """term -> ({atom: coefficient}, constant); products stay atoms"""
    if is_num(t): return {}, Fraction(t[1])
    if t[0] == 'poly':
        d = {}; c = Fraction(t[1])
        for m, k in t[2]:
            d[m if len(m) > 1 else m[0]] = d.get(m if len(m) > 1 else m[0], 0) + Fraction(k)
        return d, c
    return {t: Fraction(1)}, Fraction(0)

def _sub(a, b, k=0):
    d = dict(a[0])
    for x, v in b[0].items():
        d[x] = d.get(x, 0) - v
        if d[x] == 0: del d[x]
    return d, a[1] - b[1] + k

class Facts:
    """known linear inequalities e >= 0; signed(atom) tells whether an atom may be negative"""
    def __init__(self, conds=(), signed=None, less=(), atleast=()):
        self.signed = signed or (lambda a: False)
        self.ge = []; self.ne = []; self.seen = set()
        for a, b in less: self.add_lt(a, b)
        for a, k in atleast: self.add(_sub(lin(a), lin(C(k))))
        for c, v in (conds.items() if hasattr(conds, 'items') else conds): self.cond(c, v)
    def add(self, e):
        if e not in self.ge: self.ge.append(e)
        for a in e[0]: self.define(a)
    def add_lt(self, a, b): self.add(_sub(lin(b), lin(a), -1))
    def add_le(self, a, b): self.add(_sub(lin(b), lin(a)))
    def cond(self, c, v):
        if c[0] != 'op': return
        o = c[1]
        if o == '!' : return self.cond(c[2], not v)
        if o == 'and' and v or o == 'or' and not v:
            for x in c[2:]: self.cond(x, v)
            return
        if o == '<':
            (self.add_lt if v else lambda a, b: self.add_le(b, a))(c[2], c[3])
        elif o == '>=':
            (lambda a, b: self.add_le(b, a) if v else self.add_lt(a, b))(c[2], c[3])
        elif o == '==':
            if any(is_c(x) and not is_num(x) for x in c[2:]): return
            if v: self.add_le(c[2], c[3]); self.add_le(c[3], c[2])
            else:
                e = _sub(lin(c[2]), lin(c[3])); self.ne.append(e)
                for a in e[0]: self.define(a)
    def define(self, a):
        """what is known about an atom by its form"""
        if a in self.seen: return
        self.seen.add(a)
        if a[0] == 'op':
            o = a[1]
            if o == '%' and len(a) == 4:
                x, m = a[2], a[3]
                self.add(lin(a))
                self.cands_mod = getattr(self, 'cands_mod', []) + [a]
                self.add_le(a, x) if self.nonneg(x) else None
                if self.positive(m): self.add_lt(a, m)
                return
            if o == '/' and len(a) == 4 and is_num(a[3]) and a[3][1] >= 1:
                x, k = a[2], a[3]
                if self.nonneg(x):
                    self.add_le(mul(a, k), x); self.add_lt(x, add(mul(a, k), k)); self.add(lin(a))
                return
            if o in ('u32', 'u8', 'u16'):
                self.add(lin(a))
                if self.nonneg(a[2]): self.add_le(a, a[2])
                return
            if o == 'min' and len(a) == 4:
                self.add_le(a, a[2]); self.add_le(a, a[3])
                if self.nonneg(a[2]) and self.nonneg(a[3]): self.add(lin(a))
                return
            if o == 'max' and len(a) == 4:
                self.add_le(a[2], a); self.add_le(a[3], a); return
            if o == '&' and len(a) == 4:
                for x in a[2:]:
                    if is_num(x) and x[1] >= 0: self.add_le(a, x); self.add(lin(a))
                return
            return
        if isinstance(a[0], tuple):      # a product: not negative if no factor is
            if all(x[0] in ('i', 'phi', 'r', 'o') and not self.signed(x) for x in a): self.ge.append(({a: Fraction(1)}, Fraction(0)))
            return
        if not self.signed(a): self.add(lin(a))
    def nonneg(self, t):
        e = lin(t)
        for a in e[0]: self.define(a)
        if e[1] >= 0 and all(v >= 0 and not isinstance(a[0], tuple) and (a[0] != 'op' and not self.signed(a) or a[0] == 'op' and a[1] in ('%', '/', 'u32', 'u8', 'u16')) for a, v in e[0].items()): return True
        return self.prove(t)
    def positive(self, m): return self.prove(sub(m, ONE))
    def prove(self, goal):
        """goal >= 0 (integers)"""
        g = lin(goal)
        if not g[0]: return g[1] >= 0
        for a in g[0]: self.define(a)
        return self._refute(list(self.ge) + [({a: -v for a, v in g[0].items()}, -g[1] - 1)], list(self.ne), 3)
    def _refute(self, ge, ne, depth):
        if self._fm(ge): return True
        if depth == 0: return False
        for i, e in enumerate(ne):
            rest = ne[:i] + ne[i + 1:]
            up = (e[0], e[1] - 1); dn = ({a: -v for a, v in e[0].items()}, -e[1] - 1)
            # only useful if one side is impossible
            if self._fm(ge + [up]):
                if self._refute(ge + [dn], rest, depth - 1): return True
            elif self._fm(ge + [dn]):
                if self._refute(ge + [up], rest, depth - 1): return True
        return False
    def _fm(self, ge):
        """True if the conjunction is infeasible over the rationals (after integer tightening)"""
        # keep what is connected to the goal (the last fact)
        rel = set(ge[-1][0]); cur = True
        while cur:
            cur = False
            for d, c in ge:
                if d and rel & set(d) and not set(d) <= rel: rel |= set(d); cur = True
        E = {}
        for d, c in ge:
            if d and not set(d) <= rel: continue
            k = tuple(sorted(d.items(), key=repr)); E[k] = min(c, E.get(k, c))
        while True:
            for k, c in E.items():
                if not k and c < 0: return True
            vs = {}
            for k in E:
                for a, v in k: vs.setdefault(a, [0, 0])[0 if v > 0 else 1] += 1
            if not vs: return False
            a = min(vs, key=lambda x: (vs[x][0] * vs[x][1], repr(x)))
            pos = [(dict(k), c) for k, c in E.items() if any(x == a and v > 0 for x, v in k)]
            neg = [(dict(k), c) for k, c in E.items() if any(x == a and v < 0 for x, v in k)]
            N = {k: c for k, c in E.items() if not any(x == a for x, v in k)}
            if len(pos) * len(neg) > 400: return False
            for d1, c1 in pos:
                for d2, c2 in neg:
                    k1, k2 = -d2[a], d1[a]
                    d = {}
                    for x in set(d1) | set(d2):
                        if x == a: continue
                        v = d1.get(x, 0) * k1 + d2.get(x, 0) * k2
                        if v: d[x] = v
                    c = c1 * k1 + c2 * k2
                    if d:
                        m = max(abs(v) for v in d.values())
                        d = {x: v / m for x, v in d.items()}; c = c / m
                        if all(v.denominator == 1 for v in d.values()): c = Fraction(c.numerator // c.denominator)
                    k = tuple(sorted(d.items(), key=repr)); N[k] = min(c, N.get(k, c))
            if len(N) > 600: return False
            E = N
    def below(self, t, n): return self.prove(t) and self.prove(sub(sub(n, t), ONE))
    def infeasible(self): return self.prove(C(-1)) if not self.ge else self._refute(list(self.ge), list(self.ne), 3)

def loop_le(heads, limits, signed=None, base=()):
    """Inductive facts phi <= n for loop variables: heads are (store, conds) at loop heads (first entries and back edges);
    base are extra (a, b) pairs with a < b.  Returns [(phi, n)]"""
    phis = set()
    for store, conds, *_ in heads:
        for l, v in store.items():
            if isinstance(v, tuple):
                for s in syms(v):
                    if s[0] == 'phi' and len(s) > 3 and isinstance(s[3], tuple) and s[3][0] in ('v', 'f', 'g', 't', 'd'): phis.add(s)
    cand = set((s, n) for s in phis for n in limits)
    changed = True
    while changed:
        changed = False
        for s, n in sorted(cand, key=repr):
            for store, conds, *_ in heads:
                v = store.get(s[3])
                if v is None or v == s: continue
                f = Facts(conds, signed=signed, less=base)
                for a, b in cand: f.add_le(a, b)
                if not f.prove(sub(n, v)): cand.discard((s, n)); changed = True; break
    return sorted(cand, key=repr)
