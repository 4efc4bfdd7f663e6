"""Fact base: runs the extractor over every translation unit of /repo that the build compiles
(re-extracting only units whose text, or the text of a repository file they include, changed)
and loads functions, records, enums and globals."""
import os, sys, json, hashlib, subprocess, glob, time, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE', os.path.join(VERIF, '.cache'))
TOOLSRC = os.path.join(VERIF, 'tool', 'extract.cpp')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def sha(data):
    return hashlib.sha256(data).hexdigest()


def tool_path():
    h = sha(open(TOOLSRC, 'rb').read())[:16]
    p = os.path.join(CACHE, 'extract-' + h)
    if not os.path.exists(p):
        os.makedirs(CACHE, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-I/usr/lib/llvm-18/include', TOOLSRC, '-o', tmp,
               '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('building the extractor failed: ' + r.stderr[-2000:])
        os.chmod(tmp, 0o755)
        os.rename(tmp, p)
    return p


def units():
    """every .cpp the Linux build compiles into a library or program"""
    out = []
    src = os.path.join(REPO, 'src')
    for d, dn, fn in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel.startswith('Platform') and not (rel == 'Platform' or rel.startswith(os.path.join('Platform', 'Linux'))):
            continue
        for f in fn:
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def version_dir():
    d = os.path.join(CACHE, 'version')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'version.h')
    if not os.path.exists(p):
        t = open(os.path.join(REPO, 'src', 'version.h.in')).read()
        with open(p, 'w') as f:
            f.write(re.sub(r'@\w+@', 'unknown', t))
    return d


def flags(unit):
    R = REPO
    return ['-std=gnu++11', '-x', 'c++', '-I' + R + '/include', '-I' + R + '/src', '-I' + R + '/external',
            '-I' + version_dir(), '-I' + R + '/src/Platform/Linux', '-I' + R + '/external/parallel_hashmap',
            '-maes', '-march=x86-64', '-pthread', '-DHAVE_ROTR', '-DMINIUPNP_STATICLIB', '-D_DEFAULT_SOURCE',
            '-D_GNU_SOURCE', '-DNDEBUG', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


_hash = {}


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            h = sha(open(path, 'rb').read())
        except OSError:
            h = 'missing'
        _hash[path] = h
    return h


def fresh(out, key):
    try:
        m = json.load(open(out + '.meta'))
    except (OSError, ValueError):
        return False
    if m['key'] != key:
        return False
    return all(fhash(p) == h for p, h in m['deps'].items()) and os.path.exists(out)


def extract_all(verbose=False):
    tool = tool_path()
    th = os.path.basename(tool)
    fdir = os.path.join(CACHE, 'facts')
    os.makedirs(fdir, exist_ok=True)
    todo, outs = [], []
    us = units()
    if len(us) < 100:
        raise AnalysisBroken('only %d translation units found under %s/src' % (len(us), REPO))
    for u in us:
        out = os.path.join(fdir, sha(u.encode())[:12] + '_' + os.path.basename(u) + '.jsonl')
        key = sha((th + u + REPO + ' '.join(flags(u))).encode())
        outs.append((u, out))
        if not fresh(out, key):
            todo.append((u, out, key))

    def run(job):
        u, out, key = job
        fd, tmp = tempfile.mkstemp(dir=fdir)
        os.close(fd)
        roots = ':'.join([REPO + '/src', REPO + '/include'])
        try:
            r = subprocess.run([tool, tmp, roots, os.path.join(REPO, u), '--'] + flags(u), capture_output=True, text=True,
                               timeout=600)
            if r.returncode:
                return '%s: %s' % (u, r.stderr[-1500:])
            deps = {}
            for l in open(tmp + '.d'):
                p = l.strip()
                if p.startswith(REPO + '/') and not p.startswith(REPO + '/_build'):
                    deps[p] = fhash(p)
            with open(tmp, 'rb') as f:
                f.seek(-200, 2) if os.path.getsize(tmp) > 200 else None
                if b'"end":' not in f.read():
                    return u + ': truncated facts'
            os.rename(tmp, out)
            with open(out + '.meta', 'w') as f:
                json.dump({'key': key, 'deps': deps}, f)
            return None
        except subprocess.TimeoutExpired:
            return u + ': extraction timed out'
        finally:
            for p in (tmp, tmp + '.d'):
                if os.path.exists(p):
                    os.unlink(p)

    if todo:
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(run, todo) if e]
        if errs:
            raise AnalysisBroken('the source does not parse: ' + errs[0])
    return outs, len(todo)


class Block:
    __slots__ = ('id', 'elems', 'tk', 'cond', 'whole', 'line', 'succs', 'label', 'noret')

    def __init__(self, b):
        self.id, self.elems, self.tk, self.cond, self.whole, self.line, self.succs, self.label, self.noret = b


class Fn:
    def __init__(self, d, unit):
        self.d = d
        self.unit = unit
        self.id = d['id']
        self.qn = d['qn']
        self.cls = d['cls']
        self.file = d['file']
        self.line = d['line']
        self.kind = d['kind']
        self.vars = d['vars']
        self.types = d['types']
        self.ex = d['ex']
        self.np = d['np']
        self.calls = d['calls']
        self.over = d['over']
        self.parent = d['parent']
        self.entry, self.exit = d['entry'], d['exit']
        self._bl = None
        self._names = None

    @property
    def name(self):
        return self.qn.rsplit('::', 1)[-1]

    @property
    def blocks(self):
        if self._bl is None:
            self._bl = {b[0]: Block(b) for b in self.d['bl']}
        return self._bl

    @property
    def names(self):
        """resolved names mentioned anywhere in the function"""
        if self._names is None:
            s = set()
            for e in self.ex:
                k = e[0]
                if k == 'c':
                    s.add(e[4])
                elif k == 'm':
                    s.add(e[4])
                elif k in ('g', 'e', 'k'):
                    s.add(e[3])
                elif k == 'F':
                    s.add(e[4])
                elif k == 'T':
                    s.add('throw')
            for b in self.d['bl']:
                for el in b[1]:
                    if el[0] == 'f':
                        s.add(el[1])
            self._names = s
        return self._names

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def loc(self, line=None):
        return '%s:%d' % (self.rel(), line or self.line)

    def short(self):
        return short(self.id)

    def __repr__(self):
        return '<Fn %s>' % self.qn


def short(fid):
    i = fid.find('(')
    return fid if i < 0 else fid[:i]


class Facts:
    def __init__(self, verbose=False):
        t = time.time()
        outs, n = extract_all(verbose)
        self.extracted = n
        self.units = [u for u, _ in outs]
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.unitfns = {}
        for u, out in outs:
            names = []
            for l in open(out):
                if l.startswith('{"id":'):
                    d = json.loads(l)
                    i = d['id']
                    if i in self.fns:
                        o = self.fns[i]
                        if o.file != d['file']:
                            i = d['id'] = i + '#' + os.path.basename(d['file'])
                            if i in self.fns:
                                continue
                        else:
                            continue
                    self.fns[i] = Fn(d, u)
                elif l.startswith('{"record":'):
                    d = json.loads(l)
                    self.records.setdefault(d['record'], d)
                elif l.startswith('{"enum":'):
                    d = json.loads(l)
                    self.enums.setdefault(d['enum'], d)
                elif l.startswith('{"global":'):
                    d = json.loads(l)
                    self.globals.setdefault(d['global'], d)
        self.byqn = {}
        self.bycls = {}
        self.overriders = {}
        self.callers = {}
        for f in self.fns.values():
            self.byqn.setdefault(f.qn, []).append(f)
            if f.cls:
                self.bycls.setdefault(f.cls, []).append(f)
            for o in f.over:
                self.overriders.setdefault(o, []).append(f.id)
            for c in f.calls:
                self.callers.setdefault(c, set()).add(f.id)
        self.load_s = time.time() - t
        self._keyrel = {}

    # ---- lookups -------------------------------------------------------
    def q(self, qn, must=True):
        r = self.byqn.get(qn, [])
        if not r and must:
            raise AnalysisBroken('anchor function %s not found' % qn)
        return r

    def q1(self, qn, sel=None):
        r = self.q(qn)
        if sel:
            r = [f for f in r if sel in f.id]
        if len(r) != 1:
            raise AnalysisBroken('anchor function %s%s: %d candidates' % (qn, ' /' + sel if sel else '', len(r)))
        return r[0]

    def cls(self, c):
        r = self.bycls.get(c, [])
        if not r:
            raise AnalysisBroken('anchor class %s not found' % c)
        return r

    def record(self, c):
        if c not in self.records:
            raise AnalysisBroken('anchor record %s not found' % c)
        return self.records[c]

    def resolve(self, fid, virt=False):
        """functions with a body a call may reach"""
        out = []
        if fid in self.fns:
            out.append(fid)
        if virt:
            for o in self.overriders.get(fid, []):
                if o in self.fns and o not in out:
                    out.append(o)
        return out

    def reach(self, keyed):
        """ids of functions from which a function satisfying keyed(fn) is reachable over calls"""
        seen = {f.id for f in self.fns.values() if keyed(f)}
        work = list(seen)
        while work:
            x = work.pop()
            preds = set(self.callers.get(x, ()))
            f = self.fns[x]
            for o in f.over:
                preds |= self.callers.get(o, set())
            if f.parent:
                preds.add(f.parent)
            for p in preds:
                if p in self.fns and p not in seen:
                    seen.add(p)
                    work.append(p)
        return seen
