"""Lock analysis: which mutexes are held at every field access and call, over the whole program.

Intraprocedural: forward must-dataflow over each function's CFG (guard objects acquire at their declaration and release at
the end of their scope; lock()/unlock() on guards and mutexes are followed).  Interprocedural: the locks held on entry
are the intersection (must) or union (may) over all call sites in the program; a function nobody calls, or whose address
is taken, starts with nothing held.  Mutexes are identified by the field or global that holds them."""
import re
from .facts import AnalysisBroken

GUARD = re.compile(r'^(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)\b')
MUTEX = re.compile(r'^(mutable )?std::(recursive_|shared_|timed_|recursive_timed_|shared_timed_)?mutex$')
TOP = None


def ltype(fn, vi):
    return fn.types[fn.vars[vi][1]]


class Locks:
    def __init__(self, F, labels=()):
        self.F = F
        self.labels = dict(labels)
        self.wrappers = {}      # RAII record -> mutex name
        self.info = {}          # fn id -> (accesses, calls, acquires)
        self._guardfn = {}
        self.lockables = {}
        for q, r in F.records.items():
            for fl in r.get('fields', ()):
                t = fl[1] if isinstance(fl, (list, tuple)) else fl.get('type', '')
                if GUARD.match(t):
                    self.wrappers[q] = None
        for q in list(self.wrappers):
            for f in F.bycls.get(q, ()):
                if f.kind == 'ctor':
                    for b in f.blocks.values():
                        for el in b.elems:
                            if el[0] == 'f' and el[2] >= 0:
                                m = self.mutex_in(f, el[2])
                                if m:
                                    self.wrappers[q] = m
        self.wrappers = {q: m for q, m in self.wrappers.items() if m}
        self.lockables = {}     # record with lock() and unlock() -> the mutex they operate on
        for f in F.fns.values():
            if f.cls and f.name == 'lock' and F.byqn.get(f.cls + '::unlock'):
                for e in f.ex:
                    if e[0] == 'c' and e[4].rsplit('::', 1)[-1] == 'lock' and e[5] >= 0 and f.ex[e[5]][0] == 'm':
                        self.lockables[f.cls] = self.mutex_in(f, e[5])
        for f in F.fns.values():
            bp = {i for i, v in enumerate(f.vars) if v[2] == 'p' and f.types[v[1]] == 'bool'}
            for e in f.ex:
                if e[0] == 'b' and e[3].endswith('=') and e[3] not in ('==', '!=', '<=', '>=') and f.ex[e[4]][0] == 'v':
                    bp.discard(f.ex[e[4]][3])
            f.boolps = bp
            self.info[f.id] = self.local(f)
        self.interproc()

    # ---- expressions ----
    def mutex_in(self, f, i, depth=0):
        """name of the mutex an expression denotes or acquires"""
        if i is None or i < 0 or depth > 6:
            return None
        e = f.ex[i]
        k = e[0]
        if k in ('m', 'g', 'v') and self.lockables.get(self.clean(f.types[e[1]])):
            return self.lockables[self.clean(f.types[e[1]])]
        if k == 'm':
            return e[4] if MUTEX.match(self.clean(f.types[e[1]])) else None
        if k == 'g':
            return e[3] if MUTEX.match(self.clean(f.types[e[1]])) else None
        if k == 'v':
            v = f.vars[e[3]]
            if MUTEX.match(self.clean(f.types[v[1]])):
                for b in f.blocks.values():
                    for el in b.elems:
                        if el[0] == 'd' and el[1] == e[3] and el[2] >= 0:
                            r = self.mutex_in(f, el[2], depth + 1)
                            if r:
                                return r
                return '%s %s' % (f.qn, v[0] if isinstance(v[0], str) else v[4])
            return None
        if k == 'k':
            if any(self.deferred(f, a) for a in e[5][1:]):
                return None
            for a in e[5]:
                m = self.mutex_in(f, a, depth + 1)
                if m:
                    return m
            return None
        if k in ('z', 'y'):
            return self.mutex_in(f, e[3], depth + 1)
        if k == 'u':
            return self.mutex_in(f, e[4], depth + 1)
        if k == 'c':
            ret = self.guard_of_fn(e[3] if isinstance(e[3], str) else '', e[4], depth)
            return ret
        if k == 'I' and len(e[3]) == 1:
            return self.mutex_in(f, e[3][0], depth + 1)
        return None

    def deferred(self, f, i):
        for e in self.walk(f, i):
            if e[0] in ('g', 'F') and e[3].endswith(('defer_lock', 'try_to_lock')):
                return True
        return False

    def guard_of_fn(self, fid, qn, depth):
        """functions that hand out a held guard"""
        if qn in self._guardfn:
            return self._guardfn[qn]
        self._guardfn[qn] = None
        for g in self.F.byqn.get(qn, ()):
            for b in g.blocks.values():
                for el in b.elems:
                    if el[0] == 'r' and el[1] >= 0 and GUARD.match(self.clean(g.types[g.ex[el[1]][1]])):
                        self._guardfn[qn] = self.mutex_in(g, el[1], depth + 1) or self._guardfn[qn]
        return self._guardfn[qn]

    @staticmethod
    def clean(t):
        t = t.rstrip('& ').strip()
        return t[6:] if t.startswith('const ') else t

    def kids(self, e):
        k = e[0]
        if k == 'm':
            return [e[3]]
        if k == 'b':
            return [e[4], e[5]]
        if k == 'u':
            return [e[4]]
        if k == 'c':
            return ([e[5]] if e[5] >= 0 else []) + list(e[6])
        if k == 'k':
            return list(e[5])
        if k == 'q':
            return [e[3], e[4], e[5]]
        if k == 'x':
            return [e[3], e[4]]
        if k in ('z', 'y', 'T', 'D'):
            return [e[3]] if e[3] is not None and e[3] >= 0 else []
        if k == 'N':
            return list(e[4]) + ([e[5]] if e[5] >= 0 else [])
        if k == 'I':
            return list(e[3])
        if k == 'o':
            return list(e[4])
        return []

    def walk(self, f, i, seen=None):
        stack = [i]
        while stack:
            j = stack.pop()
            if j is None or j < 0:
                continue
            e = f.ex[j]
            yield e
            stack.extend(self.kids(e))

    # ---- one function ----
    def local(self, f):
        acc, calls, acq, lam = [], [], [], []
        # quick: does it matter at all
        ins = {f.entry: frozenset()}
        work = [f.entry]
        out_seen = {}
        bl = f.blocks
        if f.entry not in bl:
            return acc, calls, acq
        interesting = any(el[0] == 'd' and self.isguard(f, el[1]) for b in bl.values() for el in b.elems) or any(e[0] == 'c' and e[4].rsplit('::', 1)[-1] in ('lock', 'unlock', 'release', 'try_lock') for e in f.ex)
        if interesting or f.boolps:
            while work:
                bid = work.pop()
                st0 = ins[bid]
                out = self.flow(f, bl[bid], st0, None)
                for k, s in enumerate(bl[bid].succs):
                    if s is None or s not in bl:
                        continue
                    o = ins.get(s)
                    st = st0 if k and not bl[bid].tk else out       # exceptional edge: before the block's declarations
                    if k < 2 and len(bl[bid].succs) == 2 and bl[bid].tk and f.boolps:
                        c = self.boolcond(f, bl[bid].cond)
                        if c:
                            st = st | {('?', (c[0], c[1] ^ k))}
                    n = st if o is None else o & st
                    if n != o:
                        ins[s] = n
                        work.append(s)
        else:
            for b in bl:
                ins[b] = frozenset()
        seen = set()
        for bid, st in ins.items():
            self.flow(f, bl[bid], st, (acc, calls, acq, seen))
        return acc, calls, acq

    def boolcond(self, f, i):
        pol = 1
        while i is not None and i >= 0:
            e = f.ex[i]
            if e[0] in ('z', 'y'):
                i = e[3]
            elif e[0] == 'u' and e[3] == '!':
                pol ^= 1
                i = e[4]
            elif e[0] == 'v' and e[3] in f.boolps:
                return (f.vars[e[3]][3], pol)
            else:
                return None
        return None

    def isguard(self, f, vi):
        t = self.clean(ltype(f, vi))
        return bool(GUARD.match(t)) or t in self.wrappers

    def flow(self, f, b, st, rec):
        held = lambda: st
        for el in b.elems:
            k = el[0]
            if k == 'E':
                e = f.ex[el[1]]
                if rec:
                    self.record(f, el[1], held(), rec)
                if e[0] == 'c' and e[5] >= 0:
                    n = e[4].rsplit('::', 1)[-1]
                    if n in ('lock', 'unlock', 'release', 'try_lock'):
                        o = f.ex[e[5]]
                        while o[0] in ('z', 'y'):
                            o = f.ex[o[3]]
                        if o[0] == 'v' and self.isguard(f, o[3]):
                            v = o[3]
                            if n in ('unlock', 'release'):
                                st = frozenset(x for x in st if x[0] != v)
                            elif n == 'lock':
                                m = self.guardmutex(f, v)
                                if m:
                                    if rec:
                                        rec[2].append((m, self.split(held()), e[2]))
                                    st = st | {(v, m)}
                        else:
                            m = self.mutex_in(f, e[5])
                            if m and n == 'lock':
                                if rec:
                                    rec[2].append((m, self.split(held()), e[2]))
                                st = st | {('x', m)}
                            elif m and n == 'unlock':
                                st = st - {('x', m)}
            elif k == 'd':
                if el[2] >= 0:
                    if rec:
                        self.record(f, el[2], held(), rec)
                    if self.isguard(f, el[1]):
                        t = self.clean(ltype(f, el[1]))
                        m = self.wrappers.get(t) or self.mutex_in(f, el[2])
                        if m:
                            if rec:
                                rec[2].append((m, self.split(held()), el[3]))
                            st = frozenset(x for x in st if x[0] != el[1]) | {(el[1], m)}
            elif k == '~':
                st = frozenset(x for x in st if x[0] != el[1])
            elif k == 'r':
                if el[1] >= 0 and rec:
                    self.record(f, el[1], held(), rec)
            elif k == 'f':
                if el[2] >= 0 and rec:
                    self.record(f, el[2], held(), rec)
        if rec and b.cond is not None and b.cond >= 0:
            self.record(f, b.cond, held(), rec)
        return st

    def guardmutex(self, f, vi):
        t = self.clean(ltype(f, vi))
        if t in self.wrappers:
            return self.wrappers[t]
        for b in f.blocks.values():
            for el in b.elems:
                if el[0] == 'd' and el[1] == vi and el[2] >= 0:
                    e = f.ex[el[2]]
                    if e[0] == 'k' and e[5]:
                        return self.mutex_in(f, e[5][0])
        return None

    @staticmethod
    def split(st):
        return (frozenset(m for k, m in st if k != '?'), frozenset(m for k, m in st if k == '?'))

    def record(self, f, i, held, rec):
        acc, calls, acq, seen = rec
        held = self.split(held)
        stack = [(i, None)]
        while stack:
            j, ctx = stack.pop()
            if j < 0 or j in seen:
                continue
            seen.add(j)
            e = f.ex[j]
            k = e[0]
            if k == 'm':
                acc.append((e[4], held, e[2], j))
            elif k == 'g':
                acc.append((e[3], held, e[2], j))
            elif k == 'c':
                calls.append((e[3], e[4], held, e[2], j))
            elif k == 'k':
                calls.append((e[4] if isinstance(e[4], str) else '', e[3], held, e[2], j))
            elif k == 'L':
                calls.append((e[3], '$lambda', held, e[2], j))
            elif k == 'F':
                calls.append((e[3] if isinstance(e[3], str) else '', '$ref', held, e[2], j))
            for x in self.kids(e):
                stack.append((x, e))

    # ---- whole program ----
    def consts(self, f, e):
        """constant boolean arguments of a call"""
        r = []
        for k, a in enumerate(e[6] if e[0] == 'c' else e[5]):
            while a >= 0 and f.ex[a][0] in ('z', 'y'):
                a = f.ex[a][3]
            if a >= 0 and f.ex[a][0] == 'B':
                r.append((k, 1 if f.ex[a][3] else 0))
        return frozenset(r)

    def interproc(self):
        F = self.F
        sites = {}      # callee id -> [(caller id, held, conditions, constant arguments, line)]
        taken = set()
        pcall = {}      # (function, parameter) -> [held] where the function calls the parameter
        for fid, (acc, calls, acq) in self.info.items():
            f = F.fns[fid]
            for cid, qn, (h, cd), line, j in calls:
                e = f.ex[j]
                if e[0] == 'c' and qn.endswith('::operator()') and e[5] >= 0:
                    o = f.ex[e[5]]
                    while o[0] in ('z', 'y'):
                        o = f.ex[o[3]]
                    if o[0] == 'v' and f.vars[o[3]][2] == 'p':
                        pcall.setdefault((fid, f.vars[o[3]][3]), []).append((h, cd))
        for fid, (acc, calls, acq) in self.info.items():
            f = F.fns[fid]
            for cid, qn, (h, cd), line, j in calls:
                if qn == '$ref':
                    taken.add(cid)
                    continue
                if qn == '$lambda':
                    w = self.inplace(f, j)
                    if w is True:
                        sites.setdefault(cid, []).append((fid, h, cd, frozenset(), line))
                    elif w:
                        g, k = w
                        ts = [t for t in F.resolve(g, True)]
                        if ts and all((t, k) in pcall for t in ts):
                            for t in ts:
                                for h2, cd2 in pcall[(t, k)]:
                                    sites.setdefault(cid, []).append((t, h2, cd2, frozenset(), line))
                        else:
                            taken.add(cid)
                    else:
                        taken.add(cid)
                    continue
                k = self.consts(f, f.ex[j]) if f.ex[j][0] in ('c', 'k') else frozenset()
                for t in F.resolve(cid, True):
                    sites.setdefault(t, []).append((fid, h, cd, k, line))
                if f.ex[j][0] == 'c' and cid in F.fns and qn.rsplit('::', 1)[-1] == 'notify':
                    # the member function handed to an observer manager is called there and then
                    for a in f.ex[j][6]:
                        for e in self.walk(f, a):
                            if e[0] == 'F' and isinstance(e[3], str):
                                for t in F.resolve(e[3], True):
                                    sites.setdefault(t, []).append((fid, h, cd, frozenset(), line))
        self.sites = sites
        self.taken = {t for t in taken if t in F.fns}
        # lock sets a function may be entered with: (locks, constant boolean arguments, thread label)
        ctx = {fid: {(frozenset(), frozenset(), self.labels.get(F.fns[fid].qn, ''))} if fid in self.taken or not sites.get(fid) else set() for fid in F.fns}
        out = {}
        for t, l in sites.items():
            for c, h, cd, k, line in l:
                out.setdefault(c, []).append((t, h, cd, k))
        work = [x for x in F.fns if ctx[x]]
        while work:
            x = work.pop()
            lab = self.labels.get(F.fns[x].qn)
            for t, h, cd, k in out.get(x, ()):
                new = {(h | L, k, lab or lb) for L, kk, lb in ctx[x] if self.possible(cd, kk)} - ctx[t]
                if new and len(ctx[t]) < 400:
                    ctx[t] |= new
                    work.append(t)
        # recursion roots nobody enters
        self.ctx = ctx

    @staticmethod
    def possible(cd, kk):
        return not any((i, 1 - p) in kk for i, p in cd)

    def contexts(self, fid, hc):
        """(lock set, label) pairs a program point may run under"""
        h, cd = hc
        lab = self.labels.get(self.F.fns[fid].qn)
        return {(h | L, lab or lb) for L, kk, lb in self.ctx[fid] if self.possible(cd, kk)}

    def witness(self, fid, want, depth=0, seen=()):
        """a chain of callers that enters the function with a lock set satisfying want(L, label)"""
        for c, h, cd, k, line in sorted(self.sites.get(fid, ()), key=lambda x: (x[0], x[4])):
            if c in seen or depth > 12:
                continue
            f = self.F.fns[c]
            lab = self.labels.get(f.qn)
            for L, kk, lb in self.ctx[c]:
                if self.possible(cd, kk) and want(h | L, lab or lb):
                    up = self.witness(c, lambda L2, lb2, L=L, lb=lb: L2 == L and lb2 == lb, depth + 1, seen + (fid,)) if L or lb else []
                    return up + ['%s %s' % (f.loc(line), f.qn)]
        return []

    def inplace(self, f, j):
        """the lambda expression is run while its enclosing expression is evaluated (standard algorithms, immediate call)"""
        par = {}
        for i, e in enumerate(f.ex):
            for x in self.kids(e):
                par.setdefault(x, i)
        i = par.get(j)
        last = j
        while i is not None:
            e = f.ex[i]
            if e[0] == 'c' and e[3] in self.F.fns and last in e[6]:
                return (e[3], e[6].index(last))
            if e[0] == 'c':
                n = e[4]
                return n.startswith('std::') and n.rsplit('::', 1)[-1] in ALGS or n.endswith('operator()')
            if e[0] == 'k' and e[3] != 'std::function' and e[6] not in ('c', 'm'):
                return False
            last = i
            i = par.get(i)
        return True     # stored in a local variable: its calls are call sites of their own


ALGS = {'for_each', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'transform', 'accumulate', 'sort', 'stable_sort', 'remove_if', 'copy_if', 'generate',
        'max_element', 'min_element', 'lower_bound', 'upper_bound', 'partition', 'unique', 'equal', 'equal_range', 'binary_search', 'remove_copy_if', 'replace_if', 'nth_element', 'generate_n', 'wait', 'wait_for', 'wait_until'}


class Sections:
    """how many separate critical sections of a mutex one call of a function may enter, along any path (0, 1, 2 = more)"""

    def __init__(self, L, mutex):
        self.L, self.F, self.m = L, L.F, mutex
        self.memo = {}
        self.why = {}

    def of(self, fid, kk=frozenset(), depth=0):
        key = (fid, kk)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = 0
        if depth > 40 or fid not in self.F.fns:
            return 0
        f = self.F.fns[fid]
        acc, calls, acq = self.L.info[fid]
        evs = {}        # line -> weight is not enough: order inside blocks matters only for the sum
        at = {}
        for m, (h, cd), line in acq:
            if m == self.m and self.m not in h and self.L.possible(cd, kk):
                at.setdefault(('a', line), 1)
        for cid, qn, (h, cd), line, j in calls:
            if self.m in h or not self.L.possible(cd, kk) or qn in ('$ref',):
                continue
            if qn == '$lambda' and self.L.inplace(f, j) is not True:
                continue
            k2 = self.L.consts(f, f.ex[j]) if f.ex[j][0] in ('c', 'k') else frozenset()
            w = 0
            for t in self.F.resolve(cid, True):
                w = max(w, self.of(t, k2, depth + 1))
            if w:
                at[('c', j)] = w
        if not at:
            self.memo[key] = 0
            return 0
        # weight of each block, then the heaviest path (a cycle with weight counts as many)
        wt = {}
        own = {el[1] for b in f.blocks.values() for el in b.elems if el[0] == 'E'}
        for bid, b in f.blocks.items():
            s = 0
            exs = []
            for el in b.elems:
                if el[0] == 'E':
                    exs.append(el[1])
                elif el[0] in ('d', 'f'):
                    exs.append(el[2]) if el[2] not in own else None
                    if el[0] == 'd' and ('a', el[3]) in at and self.L.isguard(f, el[1]):
                        s += 1
                elif el[0] == 'r':
                    exs.append(el[1]) if el[1] not in own else None
            if b.cond is not None and b.cond >= 0:
                exs.append(b.cond) if b.cond not in own else None
            got = set()
            for i in exs:
                for j in self.idx(f, i, own):
                    if ('c', j) in at and j not in got:
                        got.add(j)
                        s += at[('c', j)]
                    if ('a', f.ex[j][2]) in at and f.ex[j][0] == 'c' and f.ex[j][4].rsplit('::', 1)[-1] == 'lock' and j not in got:
                        got.add(j)
                        s += 1
            wt[bid] = min(s, 2)
        best = {f.entry: wt.get(f.entry, 0)}
        work = [f.entry]
        done = set()
        seen_j = {}
        while work:
            b = work.pop()
            for s in f.blocks[b].succs:
                if s is None or s not in f.blocks:
                    continue
                n = min(2, best[b] + wt[s])
                if n > best.get(s, -1):
                    best[s] = n
                    work.append(s)
        r = max(best.values())
        self.memo[key] = r
        return r

    def idx(self, f, i, own):
        """subexpressions evaluated at this element (those with an element of their own are counted there)"""
        stack = [(i, True)]
        while stack:
            j, top = stack.pop()
            if j is None or j < 0 or not top and j in own:
                continue
            yield j
            stack.extend((x, False) for x in self.L.kids(f.ex[j]))
