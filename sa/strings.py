"""Constant propagation through std::string: contents are propagated, elements are kept in step with the whole."""
from .engine import *
from .terms import *

def text(v): return v[1] if v is not None and v[0] == 'c' and isinstance(v[1], str) else None

class StrMixin:
    """str_call(): models of the string operations for constant contents; str_write(): element -> whole"""
    NPOS = 2 ** 64 - 1
    def explode(self, eng, st, loc):
        t = text(eng.read(st, loc))
        if t is None: return None
        for k in [k for k in st.store if k[0] == 'e' and k[1] == loc]: del st.store[k]
        for i, ch in enumerate(t): st.store[('e', loc, C(i))] = C(ord(ch))
        return t
    def str_write(self, eng, st, loc, val):
        loc = eng.canon(st, loc)
        if loc[0] == 'e' and loc[2][0] == 'c' and isinstance(loc[2][1], int):
            t = text(eng.read(st, loc[1]))
            if t is not None and 0 <= loc[2][1] < len(t):
                if val[0] == 'c' and isinstance(val[1], int): st.store[loc[1]] = C(t[:loc[2][1]] + chr(val[1] & 255) + t[loc[2][1] + 1:])
                else: st.store[loc[1]] = ('op', 'string')
    def span(self, eng, st, a, b):
        """string and range two iterators describe"""
        def it(v):
            if v is not None and v[0] == 'obj': v = eng.read(st, v[1])
            l = Engine.deref(v) if v is not None and v[0] == '&' else None
            return (l[1], l[2][1]) if l is not None and l[0] == 'e' and l[2][0] == 'c' else None
        x, y = it(a), it(b)
        return (x[0], x[1], y[1]) if x and y and x[0] == y[0] else None
    def str_call(self, eng, st, fr, node, name, obj, args):
        def L(a):
            v = eng.load(st, a, fr, node) if a is not None else None
            if v is not None and v[0] == 'obj': v = eng.read(st, v[1])
            return v
        q = name.split('::'); sn = q[-1]
        def setstr(loc, t):
            for k in [k for k in st.store if k[0] == 'e' and k[1] == loc]: del st.store[k]
            eng.write(st, loc, C(t))
        if name.startswith('utils::StringUtils::'):
            if sn in ('toUpper', 'toLower') and args and args[0][0] in ('L', 'obj'):
                loc = eng.canon(st, args[0][1]); t = text(eng.read(st, loc))
                if t is None: return None
                setstr(loc, t.upper() if sn == 'toUpper' else t.lower()); return [(st, ZERO)]
            if sn in ('startsWith', 'endsWith'):
                a, b = text(L(args[0])), text(L(args[1]))
                if a is None or b is None: return None
                return [(st, C(int(a.startswith(b) if sn == 'startsWith' else a.endswith(b))))]
            if sn == 'toString':
                v = L(args[0])
                if v is not None and v[0] == 'c': return [(st, C(str(v[1])))]
            return None
        if name in ('std::to_string',) and args:
            v = L(args[0]); return [(st, C(str(v[1])))] if v is not None and v[0] == 'c' else None
        if name in ('toupper', 'std::toupper', 'tolower', 'std::tolower') and args:
            v = L(args[0])
            if v is not None and v[0] == 'c' and isinstance(v[1], int): return [(st, C(ord(getattr(chr(v[1]), sn[2:])())))]
            return None
        if name in ('isdigit', 'std::isdigit', 'isalpha', 'std::isalpha') and args:
            v = L(args[0])
            if v is not None and v[0] == 'c' and isinstance(v[1], int): return [(st, C(int(getattr(chr(v[1]), sn)())))]
            return None
        if name == 'std::replace' and len(args) == 4:
            r = self.span(eng, st, args[0], args[1]); a, b = L(args[2]), L(args[3])
            if r is None or a[0] != 'c' or b[0] != 'c': return None
            t = text(eng.read(st, r[0]))
            if t is None: return None
            setstr(r[0], t[:r[1]] + t[r[1]:r[2]].replace(chr(a[1]), chr(b[1])) + t[r[2]:]); return [(st, ZERO)]
        if name == 'std::transform' and len(args) == 4:
            r = self.span(eng, st, args[0], args[1]); f = L(args[3])
            t = text(eng.read(st, r[0])) if r else None
            fn = repr(f)
            if t is None or self.span(eng, st, args[0], args[2]) is None: return None
            for k in ('upper', 'lower'):
                if 'to' + k in fn: setstr(r[0], t[:r[1]] + getattr(t[r[1]:r[2]], k)() + t[r[2]:]); return [(st, ZERO)]
            return None
        if '__normal_iterator' in name and sn == '__normal_iterator' and obj is not None and args:
            v = L(args[0])
            if v is not None: eng.write(st, obj, v); return [(st, None)]
            return None
        if 'basic_string' not in name or obj is None: return None
        loc = eng.canon(st, obj)
        t = text(eng.read(st, loc))
        if sn == 'basic_string' and len(args) >= 2 and L(args[0]) is not None and L(args[0])[0] == 'c' and isinstance(L(args[0])[1], int) and L(args[1])[0] == 'c' and isinstance(L(args[1])[1], int):
            eng.write(st, loc, C(L(args[0])[1] * chr(L(args[1])[1]))); return [(st, None)]
        if t is None: return None
        if sn in ('begin', 'cbegin'): self.explode(eng, st, loc); return [(st, ('&', ('e', loc, ZERO)))]
        if sn in ('end', 'cend'): self.explode(eng, st, loc); return [(st, ('&', ('e', loc, C(len(t)))))]
        if sn in ('operator[]', 'at', 'front', 'back'):
            i = L(args[0]) if args else C(0 if sn == 'front' else len(t) - 1)
            self.explode(eng, st, loc)
            return [(st, ('L', ('e', loc, i)))]
        a = [L(x) for x in args]
        if sn in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and a and a[0][0] == 'c':
            k = a[0][1] if isinstance(a[0][1], str) else chr(a[0][1])
            p0 = a[1][1] if len(a) > 1 and a[1][0] == 'c' else None
            n = len(t)
            if sn == 'find': r = t.find(k, p0 or 0)
            elif sn == 'rfind': r = t.rfind(k, 0, n if p0 is None or p0 >= n else p0 + len(k))
            else:
                inn = 'not' not in sn
                idx = [i for i in range(n) if (t[i] in k) == inn]
                if 'first' in sn: idx = [i for i in idx if i >= (p0 or 0)]; r = idx[0] if idx else -1
                else: idx = [i for i in idx if p0 is None or i <= p0]; r = idx[-1] if idx else -1
            return [(st, C(r if r >= 0 else self.NPOS))]
        if sn == 'substr':
            p0 = a[0][1] if a else 0; n = a[1][1] if len(a) > 1 and a[1][0] == 'c' else None
            return [(st, C(t[p0:] if n is None or n >= len(t) else t[p0:p0 + n]))]
        if sn == 'compare' and a and a[-1][0] == 'c':
            if len(a) == 1 and text(a[0]) is not None: x, y = t, a[0][1]
            elif len(a) == 3 and text(a[2]) is not None: x, y = t[a[0][1]:a[0][1] + a[1][1]], a[2][1]
            else: return None
            return [(st, C((x > y) - (x < y)))]
        if sn in ('operator+=', 'append') and len(a) == 1 and text(a[0]) is not None: setstr(loc, t + a[0][1]); return [(st, ('L', loc))]
        if sn in ('operator+=', 'push_back') and len(a) == 1 and a[0][0] == 'c': setstr(loc, t + chr(a[0][1])); return [(st, ('L', loc))]
        if sn == 'clear': setstr(loc, ''); return [(st, ZERO)]
        return None
