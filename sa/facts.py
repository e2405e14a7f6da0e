"""Extracts (or loads from a content-addressed cache) the type-checked program facts.

One `vx` run per translation unit and configuration; the result is merged into a
Program per configuration.  Nothing of /repo is executed or written.
"""
import time, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ASAGI_REPO', '/repo')

class AnalysisBroken(Exception):
    """The analysis cannot give an answer (exit status 2)."""

BASE = ['-DNDEBUG', '-DMAX_DIMENSIONS=4', '-DUSE_PTHREAD', '-DOMPI_SKIP_MPICXX', '-DDEBUG_LEVEL=0']
CONFIGS = {
    # the default options of CMakeLists.txt
    'default':  ['-DTHREADSAFE', '-DTHREADSAFE_MPI', '-DUSE_MPI3', '-DROUND_ROBIN'],
    # thread-safe MPI library: communication thread available; block distribution
    'mt':       ['-DTHREADSAFE', '-DUSE_MPI3', '-DTHREADSAFE_COUNTER'],
    'nompi3':   ['-DTHREADSAFE', '-DTHREADSAFE_MPI', '-DROUND_ROBIN'],
    'nompi':    ['-DTHREADSAFE', '-DTHREADSAFE_MPI', '-DROUND_ROBIN', '-DASAGI_NOMPI'],
    'nonuma':   ['-DTHREADSAFE', '-DTHREADSAFE_MPI', '-DUSE_MPI3', '-DROUND_ROBIN', '-DASAGI_NONUMA'],
    'nonuma_nompi': ['-DTHREADSAFE', '-DROUND_ROBIN', '-DASAGI_NOMPI', '-DASAGI_NONUMA'],
}
SKIP = r'^grid::(level::|SimpleContainer).*types::((BasicType<(unsigned char|int|long|double)>)|ArrayType|StructType)'

def mpi_flags():
    try:
        out = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True, timeout=60).stdout.split()
    except OSError:
        out = []
    return out

def sources(cfg):
    """Translation units of a configuration: every .cpp of the library directories."""
    flags = CONFIGS[cfg]
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        top = rel.split(os.sep)[0]
        if (top != '.' and top.startswith(('.', '_'))) or top in ('tests', 'examples', 'documentation', 'tools', 'submodules', 'CMake', 'preprocess', 'build'):
            dirs[:] = []
            continue
        dirs[:] = [d for d in dirs if not d.startswith(('.', '_'))]
        for f in files:
            if not f.endswith('.cpp'): continue
            r = f if rel == '.' else os.path.join(rel, f)
            if rel == 'mpi' and '-DASAGI_NOMPI' in flags: continue
            if r == 'numa/nonuma.cpp': continue   # only without pthreads
            out.append(r)
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        top = rel.split(os.sep)[0]
        if top != '.' and top.startswith(('.', '_')):
            dirs[:] = []
            continue
        if top in ('tests', 'examples', 'documentation', 'tools', 'submodules', 'build'):
            dirs[:] = []
            continue
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '_')))
        for f in sorted(files):
            if f.endswith(('.h', '.cpp', '.c', '.hpp', '.inc', '.f90')):
                h.update(os.path.join(rel, f).encode() + b'\0')
                h.update(open(os.path.join(root, f), 'rb').read())
    for f in ('stubs/utils/logger.h', 'stubs/utils/stringutils.h', 'extractor/vx.cpp', 'sa/facts.py'):
        h.update(open(os.path.join(VERIF, f), 'rb').read())
    return h.hexdigest()[:24]

def ensure_tool():
    r = subprocess.run([os.path.join(VERIF, 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor:\n' + r.stderr[-2000:])
    return os.path.join(VERIF, 'build', 'vx')

def extract(cfgs):
    vx = ensure_tool()
    base = os.path.join(VERIF, 'build', 'facts')
    os.makedirs(base, exist_ok=True)
    key = tree_hash()
    d = os.path.join(base, key)
    # keep the cache small: only the most recent trees
    # (other checks may be running: whatever vanishes meanwhile is ignored)
    try:
        olds = sorted((os.path.join(base, x) for x in os.listdir(base) if x != key), key=os.path.getmtime)
        for o in olds[:-3]:
            if time.time() - os.path.getmtime(o) < 300: continue
            for f in os.listdir(o): os.unlink(os.path.join(o, f))
            os.rmdir(o)
    except OSError: pass
    os.makedirs(d, exist_ok=True)
    mpi = mpi_flags()
    jobs = []
    for c in cfgs:
        for s in sources(c):
            out = os.path.join(d, c + '-' + s.replace('/', '_') + '.json')
            if not os.path.exists(out): jobs.append((c, s, out))
    jobs.sort(key=lambda j: 0 if j[1] in ('grid/grid.cpp',) else 1)
    def run(j):
        c, s, out = j
        inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'stubs')]
        tmp = '%s.%d' % (out, os.getpid())
        cmd = [vx, '--root=' + os.path.realpath(REPO), '--skip=' + SKIP, '--out=' + tmp, os.path.join(REPO, s), '--',
               '-std=c++11', '-w', '-x', 'c++'] + inc + (mpi if '-DASAGI_NOMPI' not in CONFIGS[c] else []) + BASE + CONFIGS[c]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if r.returncode or not os.path.exists(tmp):
            # another run may have removed the directory of an older tree meanwhile
            os.makedirs(os.path.dirname(out), exist_ok=True)
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if r.returncode or not os.path.exists(tmp):
            return (c, s, r.stderr[-3000:])
        os.rename(tmp, out)
    with ThreadPoolExecutor(8) as ex:
        bad = [b for b in ex.map(run, jobs) if b]
    if bad:
        raise AnalysisBroken('cannot parse %s [%s]:\n%s' % (bad[0][1], bad[0][0], bad[0][2]))
    return {c: [os.path.join(d, c + '-' + s.replace('/', '_') + '.json') for s in sources(c)] for c in cfgs}


def early_returns(fn):
    """clang's CFG lets a return in a destructor skip the destruction of members and bases: put it back"""
    bl = fn.get('blocks') or []; tail = [b for b in bl if any(x.get('k') in ('mdtor', 'bdtor') for x in b['e'])]
    if not tail: return
    t = next((b for b in tail if fn['exit'] in b['s']), None)
    if t is None: return
    new = None
    for b in bl:
        if b is t or fn['exit'] not in b['s'] or not any(x.get('k') == 'ret' for x in b['e']): continue
        if new is None:
            new = dict(id=max(x['id'] for x in bl) + 1, s=[fn['exit']], e=[dict(x) for b2 in reversed(tail) for x in b2['e'] if x.get('k') in ('mdtor', 'bdtor')] if len(tail) > 1 else [dict(x) for x in t['e'] if x.get('k') in ('mdtor', 'bdtor')])
        b['s'] = [new['id'] if x == fn['exit'] else x for x in b['s']]
    if new is not None: bl.append(new)

class Program:
    def __init__(self, cfg, files):
        self.cfg = cfg
        self.defs = [x[2:] for x in CONFIGS[cfg]]
        self.funcs, self.classes, self.enums, self.globals = {}, {}, {}, {}
        self.units = len(files)
        for f in files:
            d = json.load(open(f))
            T = d['types']
            for fn in d['funcs']:
                if fn['id'] in self.funcs: continue
                fn['T'] = T
                self.funcs[fn['id']] = fn
            for c in d['classes']:
                c['T'] = T
                o = self.classes.get(c['full'])
                if o is None: self.classes[c['full']] = c
            for e in d['enums']: self.enums[e['n']] = e
            for g in d['globals']:
                g['T'] = T
                o = self.globals.get(g['id'])
                if o is None or ('init' in g and 'init' not in o): self.globals[g['id']] = g
        self.by_name = {}
        for fn in self.funcs.values():
            self.by_name.setdefault(fn['n'], []).append(fn)
            if fn.get('kind') == 'dtor': early_returns(fn)
            fn['B'] = {b['id']: b for b in fn.get('blocks', [])}
        for l in self.by_name.values(): l.sort(key=lambda f: (f.get('full', ''), f['id']))
        self.classes_by_name = {}
        for c in self.classes.values(): self.classes_by_name.setdefault(c['n'], []).append(c)
        # virtual overrides: method id -> overriding method ids (transitively)
        self.overriders = {}
        up = {}
        for c in self.classes.values():
            for m in c['methods']:
                for o in m.get('overrides', []): up.setdefault(m['id'], set()).add(o)
        for m in list(up):
            seen, st = set(), [m]
            while st:
                x = st.pop()
                for o in up.get(x, ()):
                    if o not in seen:
                        seen.add(o); st.append(o)
            for o in seen: self.overriders.setdefault(o, set()).add(m)
        self.subclasses = {}
        for c in self.classes.values():
            for b in self.all_bases(c['full']): self.subclasses.setdefault(b, set()).add(c['full'])

    def all_bases(self, full):
        out, st = [], [full]
        while st:
            c = self.classes.get(st.pop())
            if not c: continue
            for b in c['bases']:
                if b not in out: out.append(b); st.append(b)
        return out

    def const(self, name, enum=None):
        """value of an enumerator"""
        for e in self.enums.values():
            if enum and not e['n'].endswith(enum): continue
            for k, v in e['c']:
                if k == name: return v
        raise AnalysisBroken('enumerator %s not found [%s]' % (name, self.cfg))

    def fn(self, name, required=True, pred=None):
        l = [f for f in self.by_name.get(name, []) if pred is None or pred(f)]
        if not l and required: raise AnalysisBroken('function %s not found [%s]' % (name, self.cfg))
        return l[0] if l else None

    def fns(self, name, required=True):
        l = self.by_name.get(name, [])
        if not l and required: raise AnalysisBroken('function %s not found [%s]' % (name, self.cfg))
        return l

    def dtor_of(self, clsfull):
        """the destructor of a class, if its body is part of the program"""
        m = getattr(self, '_dtors', None)
        if m is None: m = self._dtors = {f.get('clsfull', f.get('cls')): f for f in self.funcs.values() if f.get('kind') == 'dtor'}
        return m.get(clsfull)
    def method_of(self, clsfull, short):
        """The method named `short` that an object of class clsfull answers with (non-overload-aware)."""
        for c in [clsfull] + self.all_bases(clsfull):
            l = [f for f in self.funcs.values() if f.get('clsfull') == c and f['sn'] == short]
            if l: return l
        return []

def witness(cfg, name):
    """program of a small translation unit under /verif/witness that uses the library's headers (what does this use mean?)"""
    vx = ensure_tool(); d = os.path.join(VERIF, 'build', 'facts', tree_hash()); os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, 'witness', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:8]
    out = os.path.join(d, '%s-witness-%s-%s.json' % (cfg, name, h))
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        cmd = [vx, '--root=' + os.path.realpath(REPO), '--root2=' + os.path.join(os.path.realpath(VERIF), 'witness'), '--out=' + tmp, src, '--',
               '-std=c++11', '-w', '-x', 'c++', '-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'stubs')] \
            + (mpi_flags() if '-DASAGI_NOMPI' not in CONFIGS[cfg] else []) + BASE + CONFIGS[cfg]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if r.returncode or not os.path.exists(tmp): raise AnalysisBroken('cannot parse the witness %s [%s]:\n%s' % (name, cfg, r.stderr[-3000:]))
        os.rename(tmp, out)
    return Program(cfg, [out])

_progs = {}
def program(cfg):
    return programs([cfg])[cfg]

def programs(cfgs):
    need = [c for c in cfgs if c not in _progs]
    if need:
        for c, files in extract(need).items(): _progs[c] = Program(c, files)
    return {c: _progs[c] for c in cfgs}
