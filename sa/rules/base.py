"""What all checks share: reporting, summaries of functions, constant instantiation."""
import json, os, random, time
from ..facts import AnalysisBroken, programs, CONFIGS, VERIF, REPO
from ..engine import *
from ..terms import *

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
ALL = list(CONFIGS)

def known_findings():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}

class Report:
    """Obligations and violations of one property."""
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.viol = {}; self.obl = {}; self.counts = {}; self.samples = []; self.rules = {}
        self.fns = set(); self.files = set(); self.cfgs = set(); self.steps = 0; self.notes = []
    def rule(self, name, text): self.rules[name] = text
    def analysed(self, prog, fn):
        self.fns.add(fn.get('full') or fn['n']); self.files.add(fn.get('file', '')); self.cfgs.add(prog.cfg)
    def engine(self, prog, eng):
        self.steps += eng.steps; self.cfgs.add(prog.cfg)
        for i in eng.fn_seen:
            f = prog.funcs.get(i)
            if f: self.analysed(prog, f)
    def ob(self, rule, where, ok, msg='', fn=None, line=None, trace=None):
        """one obligation; `where` names the construct (stable across unrelated edits)"""
        self.obl.setdefault(rule, [0, 0])
        self.obl[rule][0 if ok else 1] += 1
        if ok:
            if len(self.samples) < 400: self.samples.append('%s: %s' % (rule, where))
            return True
        key = '%s | %s' % (rule, where)
        if key not in self.viol:
            loc = ''
            if fn is not None: loc = '%s:%s' % (os.path.relpath(fn.get('file', '?'), REPO) if str(fn.get('file', '')).startswith('/') else fn.get('file', '?'), line or fn.get('line', '?'))
            self.viol[key] = dict(rule=rule, where=where, message=msg, location=loc, function=(fn or {}).get('full') or (fn or {}).get('n'), path=[list(map(str, x)) for x in (trace or [])][-40:])
        return False
    def floor(self, what, n, need):
        """fewer instances than the code base must have: the anchor of a rule has vanished"""
        self.counts[what] = n
        if n < need: raise AnalysisBroken('%s: only %d instances of "%s" (at least %d expected)' % (self.pid, n, what, need))

    def finish(self):
        kf = known_findings()
        known = {f['key']: f for f in kf['findings'] if f['property'] == self.pid}
        new = [(k, v) for k, v in self.viol.items() if k not in known]
        old = [(k, v) for k, v in self.viol.items() if k in known]
        for k, v in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        total = sum(a + b for a, b in self.obl.values())
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='other',
                  coverage=dict(
                      explanation='Static analysis of the type-checked program (clang AST/CFG of every library translation unit, %d build configurations). Obligations are decided from the source only; nothing of the library is executed.' % len(self.cfgs),
                      configurations=sorted(self.cfgs), functions_analysed=len(self.fns), files=sorted(os.path.relpath(f, REPO) if f.startswith('/') else f for f in self.files if f),
                      dataflow_steps=self.steps, obligations=total, discharged=total - sum(b for _, b in self.obl.values()), obligations_by_rule={k: {'discharged': v[0], 'failed': v[1]} for k, v in self.obl.items()},
                      rules=self.rules, instances=self.counts, sample_obligations=self.samples[:60], functions=sorted(self.fns)[:200],
                      known_findings=[k for k, _ in old], notes=self.notes),
                  violations=len(new), violation_details=[dict(key=k, **v) for k, v in new],
                  wall_s=round(time.time() - self.t0, 3))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if total == 0: raise AnalysisBroken(self.pid + ': no obligation was generated')
        for k, v in new:
            d = os.path.join(VERIF, 'build', 'violations'); os.makedirs(d, exist_ok=True)
        if new:
            path = os.path.join(VERIF, 'build', 'violations', self.pid + '.json')
            json.dump([dict(key=k, **v) for k, v in new], open(path, 'w'), indent=1)
            for k, v in new:
                print('  %s\n    at %s in %s\n    %s' % (k, v['location'], v['function'], v['message']))
                for p in v['path'][-12:]: print('      via %s' % ' '.join(p))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s: %d obligations discharged, %d known findings, %d functions, %d configurations' % (self.pid, total - len(old), len(old), len(self.fns), len(self.cfgs)))
        return 0

def S(name): return ('i', ('p', name))       # a role symbol
THIS = ('i', ('this',))
THISLOC = ('d', THIS)
def F(*names):
    l = THISLOC
    for n in names: l = ('f', l, n)
    return l

def through(l):
    """the location and every location it is reached through (members, elements, pointers)"""
    while isinstance(l, tuple):
        yield l
        if l[0] in ('f', 'e'): l = l[1]
        elif l[0] == 'd' and isinstance(l[1], tuple) and l[1][0] in ('i', '&'): l = l[1][1]
        else: return
def element(l):
    """(index, rest) of the innermost container element the location lies in, None if it lies in none"""
    for x in through(l):
        if x[0] == 'e': return x[2], x[1]
    return None

ERR = ('asagi::Grid::Error', 'enum asagi::Grid::Error')
def is_err_type(t): return t.replace('const ', '').strip() in ERR
def is_agree(prog, fr, node, name):
    """a collective of the thread layer that combines error codes: takes an error by value, returns an error"""
    if not name.startswith('numa::'): return False
    g = prog.funcs.get(node.get('fn'))
    if g is None: return False
    if not is_err_type(g['T'][g['ret']] if isinstance(g.get('ret'), int) else ''): return False
    ps = g['params']
    return len(ps) >= 1 and is_err_type(ps[0]['t'] if isinstance(ps[0]['t'], str) else g['T'][ps[0]['t']]) and not ps[0].get('isref')

def agree_contract(eng, st, fr, node, arg):
    """result of combining `arg` with the other domains: an error if arg is one, else success or another domain's error
    (that the implementation does this is an obligation of C03)"""
    out = []
    err = S('error of another domain')
    z = eng.decide(st, cmp('==', arg, ZERO))
    s2 = st.copy()
    if z is not True:
        s3 = st.copy(); eng.assume(s3, cmp('!=', arg, ZERO), True)
        out.append((s3, arg))
    if z is not False:
        if z is None: eng.assume(st, cmp('==', arg, ZERO), True); eng.assume(s2, cmp('==', arg, ZERO), True)
        out.append((st, ZERO))
        s2.path = (s2.path, (fr.fn['file'], node.get('l'), 'another domain failed'))
        eng.assume(s2, cmp('!=', err, ZERO), True)
        out.append((s2, err))
    return out

class Summ(Client):
    """Client with named replacements for calls: {qualified name: f(eng, st, node, obj, args) -> value | None}"""
    def __init__(self, hooks=None, events=(), inline=None, maxev=60):
        self.hooks = hooks or {}; self.events = events; self._inl = inline; self.maxev = maxev
    def inline(self, eng, fn, name):
        return self._inl(fn, name) if self._inl else True
    def call(self, eng, st, fr, node, name, obj, args):
        h = self.hooks.get(name)
        if h is not None:
            v = h(eng, st, node, obj, args) if callable(h) else h
            if v is not None:
                return v if isinstance(v, list) else [(st, v)]
        if is_agree(eng.p, fr, node, name): return agree_contract(eng, st, fr, node, eng.load(st, args[0], fr, node))
        if name in self.events or (callable(self.events) and self.events(name)):
            self.event(eng, st, fr, node, name, obj, args)
        return None
    def event(self, eng, st, fr, node, name, obj, args):
        ev = (name, obj, tuple(eng.load(st, a) if a is not None and a[0] == 'L' and not self.lv(node, j, fr) else a for j, a in enumerate(args)))
        st.ts = (st.ts or ()) + (ev,)
        if len(st.ts) > self.maxev: raise Budget('too many events')
    def lv(self, node, j, fr): return False
    def ts_syms(self, ts): return set()
    def keep_sym(self, s): return True

def summary(prog, fn, hooks=None, store=None, args=None, rep=None, client=None, widths=False, budget=150000):
    c = client or Summ(hooks)
    e = Engine(prog, c, budget); e.widths = widths
    st = State()
    for k, v in (store or {}).items(): st.store[k] = v
    r = e.run(fn, st=st, args=args)
    if rep is not None: rep.engine(prog, e)
    if not r: raise AnalysisBroken('no path through ' + fn['n'])
    return r, e

def leaf_env(env, unknown=None):
    """env: {printed symbol: value}; indexed families via callables {prefix: f(idx)}"""
    cache = {}
    def leaf(t):
        if t in cache: return cache[t]
        if t[0] == 'i': k = showloc(t[1])
        elif t[0] == 'op': raise Unknown(show(t)) if not (t[1:2] and ('op:' + t[1]) in env) else Unknown
        else: k = show(t)
        if k in env:
            v = env[k]
        elif unknown is not None: v = unknown(t, k)
        else: raise Unknown(k)
        cache[t] = v
        return v
    return leaf

def select(results, leaf):
    """states of a summary whose path conditions hold under the instantiation"""
    out = []
    for s, v in results:
        ok = True
        for c, pol in s.conds.items():
            try: x = evaluate(c, leaf)
            except Unknown: continue      # a condition on something the property does not mention
            if x == 'undefined' or bool(x) != pol: ok = False; break
        if ok: out.append((s, v))
    return out
