"""Term matchers and rule templates."""
from .engine import Engine, Rule, Ev, NULL, TRUE, FALSE, NEG
from .facts import AnalysisBroken


# ---- term matchers: functions term -> bool ---------------------------------
def last(qn):
    return qn.rsplit('::', 1)[-1] if qn else ''


def strip(t):
    """look through copies, casts and indirections"""
    while t and t[0] in ('copy', 'cast', 'deref', 'addr'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def is_call(t, *names):
    return t[0] == 'call' and (t[1] in names or last(t[1]) in names)


class M:
    """matchers bound to an engine (for data-flow aware 'mentions')"""

    def __init__(self, E):
        self.E = E

    def fld(self, t, *names):
        """the term is, or is derived from, one of the fields"""
        ns = set(names)
        return self.E.mentions(t, lambda x: x[0] == 'fld' and (x[2] in ns or last(x[2]) in ns))

    def call(self, t, *names):
        ns = set(names)
        return self.E.mentions(t, lambda x: x[0] in ('call', 'out') and (x[1] in ns or last(x[1]) in ns))

    def glob(self, t, *names):
        ns = set(names)
        return self.E.mentions(t, lambda x: x[0] in ('glob', 'enum') and (x[1] in ns or last(x[1]) in ns))

    def has(self, t, pred):
        return self.E.mentions(t, pred)

    def param(self, t, idx=None, ty=None):
        return self.E.mentions(t, lambda x: x[0] == 'param' and (idx is None or x[1] == idx) and (ty is None or ty in x[2]))


def const_of(t):
    t = strip(t)
    if t[0] in ('int', 'bool'):
        return t[1]
    if t[0] in ('enum', 'glob'):
        return t[2]
    return None


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if d > 6:
        return '..'
    s = lambda x: show(x, d + 1)
    if k == 'fld':
        return s(t[1]) + '.' + last(t[2])
    if k == 'this':
        return 'this'
    if k in ('int', 'bool'):
        return str(t[1])
    if k == 'str':
        return '"' + t[1][:30] + '"'
    if k in ('glob', 'enum'):
        return last(t[1])
    if k == 'call':
        return (s(t[2]) + '.' if t[2] is not None else '') + last(t[1]) + '(' + ', '.join(s(a) for a in t[3]) + ')'
    if k == 'cmp':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'op':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'not':
        return '!' + s(t[1])
    if k == 'phi':
        return 'phi{%s}' % str(t[3]).split('@')[0]
    if k == 'obj':
        return str(t[1]).split('@')[0]
    if k == 'param':
        return 'arg%d' % t[1]
    if k in ('deref', 'addr', 'copy'):
        return ('*' if k == 'deref' else '&' if k == 'addr' else '') + s(t[1])
    if k == 'cast':
        return '(%s)%s' % (t[1], s(t[2]))
    if k == 'out':
        return 'out:%s#%s' % (last(t[1]), t[2])
    if k == 'size':
        return s(t[1]) + '.size()'
    if k == 'empty':
        return s(t[1]) + '.empty()'
    if k == 'in':
        return '(%s in %s)' % (s(t[2]), s(t[1]))
    if k == 'idx':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x)[:40] for x in t[1:]) + ')'


# ---- rule templates ---------------------------------------------------------
class MustPass(Rule):
    """Every path to a target event has passed the guard.

    guard(atom, pol, ev) / gevent(ev): establishes the fact.  kill(ev): removes it.
    bypass(atom, pol, ev): an accepted reason for not needing the guard on this path.
    target(ev): the event that must be guarded; or exits=pred(kind, ret).
    """

    def __init__(self, E, keys, guard=None, gevent=None, target=None, bypass=None, kill=None, exits=None, exc='explicit', no_inline=(), bevent=None, max_depth=7, fields=()):
        self.E, self.keys, self._g, self._ge, self._t, self._b, self._k, self._x = E, keys, guard, gevent, target, bypass, kill, exits
        self._be = bevent
        self.exc = exc
        self.no_inline = no_inline
        self.max_depth = max_depth
        self.fields = fields
        self.init = 0
        self.reset()

    def reset(self):
        self.bad = []
        self.ntargets = set()
        self.nguards = set()

    def event(self, f, ev, st):
        if self._t and self.final and self._t(ev):
            self.ntargets.add((ev.fn.id, ev.line))
            if not f:
                self.bad.append((ev, self.E.path(st)))
        if self._k and self._k(ev):
            f = 0
        if self._ge and self._ge(ev):
            self.nguards.add((ev.fn.id, ev.line))
            f = 1
        if self._be and self._be(ev):
            f = 1
        return f

    def branch(self, f, atom, pol, ev):
        if self._g and self._g(atom, pol, ev):
            self.nguards.add((ev.fn.id, ev.line))
            return 1
        if self._b and self._b(atom, pol, ev):
            return 1
        return f

    def leave(self, f, kind, ret, ev, st):
        if self._x and self._x(kind, ret):
            self.ntargets.add((ev.fn.id, ev.line))
            if not f:
                self.bad.append((ev, self.E.path(st)))


# ---- literals ---------------------------------------------------------------
def le(atom, pol, A, B):
    """the branch outcome says A <= B (comparisons arrive in canonical form with pol 1)"""
    return pol == 1 and atom[0] == 'cmp' and atom[1] == '<=' and A(atom[2]) and B(atom[3])


def lt(atom, pol, A, B):
    return pol == 1 and atom[0] == 'cmp' and atom[1] == '<' and A(atom[2]) and B(atom[3])


def eq(atom, pol, A, B):
    return pol == 1 and atom[0] == 'cmp' and atom[1] == '==' and (A(atom[2]) and B(atom[3]) or A(atom[3]) and B(atom[2]))


def ne(atom, pol, A, B):
    return pol == 1 and atom[0] == 'cmp' and atom[1] == '!=' and (A(atom[2]) and B(atom[3]) or A(atom[3]) and B(atom[2]))


def truth_of(atom, pol, *names):
    """outcome of testing the boolean result of a call: 1, 0 or None"""
    a = atom
    while a[0] in ('copy', 'cast'):
        a = a[1] if a[0] == 'copy' else a[2]
    if is_call(a, *names):
        return pol
    if a[0] == 'cmp' and a[1] in ('==', '!='):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if is_call(x, *names) and y in (TRUE, FALSE):
                return int((a[1] == '==') == (y == TRUE)) if pol else None
    return None


def type_test(atom, pol, T):
    """x.type() == typeid(T) outcome: (x, pol) or None.  T: unqualified record name"""
    if atom[0] == 'cmp' and atom[1] in ('==', '!='):
        for x, y in ((atom[2], atom[3]), (atom[3], atom[2])):
            if y[0] == 'other' and isinstance(y[1], str) and y[1].startswith('typeid:') and last(y[1][7:]) == T and x[0] == 'call' and last(x[1]) == 'type':
                return (x[2], pol if atom[1] == '==' else 1 - pol)
    # boost::get<T>(&x) != nullptr
    if atom[0] == 'vget' and last(atom[1]) == T:
        return (atom[2], pol)
    return None


class Gates(Rule):
    """Several guards decided in one pass.

    gates: name -> predicate(kind, atom_or_ev, pol) ; kind 'br' (atom, pol, ev) or 'ev' (ev).
    targets: list of (label, predicate(ev), required gate names).
    exits: predicate(kind, ret) -> required gate names or None.
    kills: name -> predicate(ev).
    """

    def __init__(self, E, keys, br=None, ev=None, targets=(), exits=None, kills=None, exc='explicit', no_inline=(), max_depth=7, fields=(), zero_iter=True, init=frozenset(), fresh=None):
        self.E, self.keys = E, keys
        self._fresh = fresh     # branch predicate: a new element begins, every gate is open again
        self._br, self._ev, self._t, self._x, self._k = br or {}, ev or {}, list(targets), exits, kills or {}
        self.exc, self.no_inline, self.max_depth, self.fields, self.zero_iter = exc, no_inline, max_depth, fields, zero_iter
        self.init = init
        self.reset()

    def reset(self):
        self.sites = {}     # (label, fn, line) -> set of missing gates (worst), path
        self.found = set()

    def note(self, label, ev, need, facts, st):
        k = (label, ev.fn.id, ev.line)
        if callable(need):      # the gates needed depend on the ones passed so far
            need = need(facts)
        miss = frozenset(need) - facts
        cur = self.sites.setdefault(k, {})
        for n in need:
            cur.setdefault(n, None)
        for n in miss:
            if cur.get(n) is None:
                cur[n] = self.E.path(st) or ['(entry)']

    def event(self, f, ev, st):
        if self.final:
            for label, pred, need in self._t:
                if pred(ev):
                    self.note(label, ev, need, f, st)
        for n, p in self._k.items():
            if n in f and p(ev):
                f = f - {n}
        for n, p in self._ev.items():
            if p(ev):
                self.found.add(n)
                f = f | {n}
        return f

    def branch(self, f, atom, pol, ev):
        if self._fresh and self._fresh(atom, pol, ev):
            f = self.init
        for n, p in self._br.items():
            if p(atom, pol, ev):
                self.found.add(n)
                f = f | {n}
        return f

    def leave(self, f, kind, ret, ev, st):
        if not self._x:
            return
        sts = [st]
        if kind == 'ret' and isinstance(ret, tuple) and ret and ret[0] not in ('bool', 'none', 'int', 'enum', 'obj', 'param'):
            # a returned condition: success means that it is true
            from .engine import Frame
            if ret[0] in ('call', 'cmp', 'not', 'logic', 'in', 'empty', 'phi', 'cond'):
                r = self._x(kind, ret)
                if r is None:
                    return
                fr = Frame(ev.fn, ('this',), 0, ev.stack)
                sts = self.E.assume(fr, st, ret, 1, ev.line)
        for s in sts:
            need = self._x(kind, ret)
            if need is not None:
                self.note('exit', ev, need, s.facts, s)


def succ(kind, ret):
    """an exit that may report success"""
    return kind == 'ret' and ret != FALSE


class ForAll(Rule):
    """Every element that satisfies the trigger is treated before the next one or the function's end.

    trig(atom, pol, ev) -> 1 (must be treated), 0 (tested, need not), None (not the test).
    done(ev) / done_br(atom, pol, ev): treated.  Facts: 0 or the trigger site.
    """

    def __init__(self, E, keys, trig, done=None, done_br=None, exc='explicit', no_inline=(), exits=None, trig_ev=None, max_depth=7):
        self.E, self.keys, self._tr, self._d, self._db, self._x, self._te = E, keys, trig, done, done_br, exits, trig_ev
        self.exc, self.no_inline, self.max_depth = exc, no_inline, max_depth
        self.init = 0
        self.reset()

    def reset(self):
        self.trigs = set()
        self.treated = set()
        self.bad = []
        self.dones = set()

    def event(self, f, ev, st):
        if f != 0 and self._d and self._d(ev):
            self.dones.add((ev.fn.id, ev.line))
            self.treated.add(f)
            return 0
        if self._te and self._te(ev):
            if f != 0 and self.final:
                self.bad.append((f, ev, self.E.path(st)))
            self.trigs.add((ev.fn.id, ev.line))
            return (ev.fn.id, ev.line)
        return f

    def branch(self, f, atom, pol, ev):
        if f != 0 and self._db and self._db(atom, pol, ev):
            self.dones.add((ev.fn.id, ev.line))
            f = 0
        t = self._tr(atom, pol, ev) if self._tr else None
        if t is None:
            return f
        site = (ev.fn.id, ev.line)
        if f != 0 and f == site and self.final:
            self.bad.append((f, ev, []))
        if t:
            self.trigs.add(site)
            return site
        return 0 if f == site else f

    def leave(self, f, kind, ret, ev, st):
        if f != 0 and (self._x is None or self._x(kind, ret)):
            self.bad.append((f, ev, self.E.path(st)))


# ---- loops over a whole container ---------------------------------------------
def flat_alts(E, t):
    """values that can flow into a phi (through other phis)"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == 'phi':
            stack += list(E.alts.get(x, ()))
        else:
            out.add(x)
    return out


def stripc(t):
    while t and t[0] in ('copy', 'cast'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def loop_more(E, atom, pol, cont):
    """does the branch outcome say that a loop over a whole container goes on (1) or is finished (0)?

    cont(term): is this the container?  Recognised: index loops 0..size by one, size..0 by one, iterator and
    range-for loops from begin to end, and library algorithms that visit every element.  Returns None for
    anything else - a loop that starts late, stops early or skips elements is not recognised."""
    a, p = atom, pol
    while a[0] == 'not':
        a, p = a[1], 1 - p
    if a[0] == 'more':
        return p if cont(stripc(a[1])) else None
    if a[0] != 'cmp':
        return None
    op, x, y = a[1], stripc(a[2]), stripc(a[3])
    ctx = lambda t: t[0] in ('size',) and cont(strip(t[1])) or t[0] == 'call' and last(t[1]) in ('end', 'size', 'length', 'rend', 'cend') and cont(strip(t[2] if t[2] is not None else (t[3][0] if t[3] else t)))

    def ivar(t):
        return t if t[0] == 'phi' else None

    def shape(ph):
        """(starts, steps) of an induction variable"""
        starts, steps = [], []
        for v in flat_alts(E, ph):
            v = stripc(v)
            if v[0] == 'op' and v[1] in ('+', '-', '++', '--'):
                b = [stripc(q) for q in (v[2], v[3])]
                if any(q[0] == 'phi' for q in b) or v[1] in ('++', '--'):
                    steps.append(v)
                    continue
            if v[0] == 'un' and v[1] in ('p++', 'p--'):
                steps.append(v)
                continue
            if v[0] == 'call' and last(v[1]) == 'erase' and len(v[3]) == 1 and v[2] is not None and cont(strip(v[2])) and stripc(v[3][0])[0] == 'phi':
                steps.append(('op', '++', stripc(v[3][0]), ('int', 1)))     # erase() returns the next element
                continue
            starts.append(v)
        return starts, steps

    def unit(v, sign):
        if v[0] == 'un':
            return v[1] == ('p++' if sign > 0 else 'p--')
        return v[1] in (('+', '++') if sign > 0 else ('-', '--')) and (('int', 1) in (v[2], v[3]))

    # forward: i < size / i != size / it != end
    for u, w, ops_more, ops_done in ((x, y, ('<', '!='), None), (y, x, ('!=',), None)):
        ph = ivar(u)
        if ph is not None and ctx(w):
            st, sp = shape(ph)
            good = st and sp and all(v == ('int', 0) or v[0] == 'call' and last(v[1]) in ('begin', 'cbegin', 'rbegin') and cont(strip(v[2] if v[2] is not None else v)) for v in st) and all(unit(v, 1) for v in sp)
            if not good:
                return None
            if op in ops_more:
                return p
            if op == '==':
                return 1 - p
            return None
        # finished: size <= i
        if ivar(w) is not None and ctx(u) and op == '<=' and w is y and u is x:
            st, sp = shape(w)
            if st and sp and all(v == ('int', 0) for v in st) and all(unit(v, 1) for v in sp):
                return 1 - p
            return None
    # backward: i != 0, 0 < i, 0 <= i, i == 0, i <= 0, i < 0; starting at size or size-1
    def sz(v):
        return v[0] == 'size' and cont(strip(v[1])) or v[0] == 'call' and last(v[1]) in ('size', 'length') and v[2] is not None and cont(strip(v[2]))
    for u, w in ((x, y), (y, x)):
        zero = u == ('int', 0)
        ph = w
        dec = False
        if ph[0] == 'un' and ph[1] == 'p--':
            ph, dec = stripc(ph[2]), True
        if not zero or ph[0] != 'phi':
            continue
        st, sp = shape(ph)
        s0 = st and all(sz(v) for v in st)
        s1 = st and all(v[0] == 'op' and v[1] == '-' and sz(stripc(v[2])) and v[3] == ('int', 1) for v in st)
        if not sp or not all(unit(v, -1) for v in sp):
            continue
        if op == '!=' and s0:
            return p
        if op == '==' and s0:
            return 1 - p
        if op == '<' and u is x and s0:      # 0 < i
            return p
        if op == '<=' and u is x and s1:     # 0 <= i
            return p
        if op == '<' and u is y and s1:      # i < 0
            return 1 - p
        if op == '<=' and u is y and s0:     # i <= 0
            return 1 - p
    return None


class EachOf(Rule):
    """Every element of a container is treated on every path to an exit that needs it.

    more: loop_more-style predicate(atom, pol, ev) -> 1/0/None.  done(ev) / done_br(atom, pol, ev): the current
    element was treated (or needs no treatment).  exits(kind, ret): exits at which the walk must be complete."""

    def __init__(self, E, keys, more, done=None, done_br=None, exits=None, exc='explicit', no_inline=(), max_depth=7, reset_ev=None, some=False):
        self.E, self.keys, self._m, self._d, self._db, self._x, self._r = E, keys, more, done, done_br, exits or (lambda k, r: k == 'ret'), reset_ev
        self.some = some
        self.exc, self.no_inline, self.max_depth = exc, no_inline, max_depth
        self.init = 'start'
        self.reset()

    def reset(self):
        self.bad = []
        self.loops = set()
        self.dones = set()
        self.sites = set()

    def event(self, f, ev, st):
        if self._r and self._r(ev):
            return 'start'
        if self._d and self._d(ev):
            self.dones.add((ev.fn.id, ev.line))
            if f == 'pending':
                return 'treated'
        return f

    def branch(self, f, atom, pol, ev):
        if f == 'pending' and self._db and self._db(atom, pol, ev):
            self.dones.add((ev.fn.id, ev.line))
            f = 'treated'
        t = self._m(atom, pol, ev)
        if t is None:
            return f
        site = (ev.fn.id, ev.line)
        self.loops.add(site)
        if self.some:
            # several loops walk over the container; one of them has to treat every element
            if f == 'complete':
                return f
            if f in ('pending', 'spoiled'):
                return 'spoiled' if t else 'start'
            return 'pending' if t else 'complete'
        if f == 'pending':
            if self.final:
                self.bad.append(('an element is passed over untreated', ev, []))
            f = 'treated'
        if t:
            return 'pending'
        return 'complete'

    def leave(self, f, kind, ret, ev, st):
        if self._x(kind, ret):
            self.sites.add((ev.fn.id, ev.line))
            if f != 'complete':
                self.bad.append(({'start': 'reached without walking over all elements', 'pending': 'reached with an untreated element', 'spoiled': 'reached with an untreated element', 'treated': 'the walk over the elements was abandoned'}[f], ev, self.E.path(st)))


# ---- index ranges ---------------------------------------------------------------
def lin(t):
    """linear form of an integer term: {symbol: coefficient, 1: constant}"""
    t = stripc(t)
    c = const_of(t)
    if c is not None and not isinstance(c, str):
        return {1: int(c)}
    if t[0] == 'op' and t[1] in ('+', '-'):
        a, b = lin(t[2]), lin(t[3])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v or k == 1}
    if t[0] == 'call' and last(t[1]) in ('size', 'length') and t[2] is not None and not t[3]:
        return {('size', strip(t[2])): 1}
    if t[0] == 'size':
        return {('size', strip(t[1])): 1}
    return {t: 1}


def ladd(a, b, k=1):
    r = dict(a)
    for s, v in b.items():
        r[s] = r.get(s, 0) + k * v
    return {s: v for s, v in r.items() if v}


def loop_cond(E, atom, pol):
    """(phi, lo, hi, more): a counting loop over phi in lo..hi by one; more is 1 when the outcome says it goes on"""
    if atom[0] != 'cmp' or pol != 1:
        return None
    op, x, y = atom[1], stripc(atom[2]), stripc(atom[3])
    post = None
    d = ladd(lin(x), lin(y), -1)
    phis = [s for s in d if isinstance(s, tuple) and (s[0] == 'phi' or s[0] == 'un' and s[1] in ('p++', 'p--') and stripc(s[2])[0] == 'phi')]
    for ph0 in phis:
        ph = stripc(ph0[2]) if ph0[0] == 'un' else ph0
        if d[ph0] not in (1, -1):
            continue
        starts, sign = [], 0
        okk = True
        for v in flat_alts(E, ph):
            l = lin(v)
            p = [s for s in l if isinstance(s, tuple) and s[0] == 'phi']
            if v[0] == 'un' and v[1] in ('p++', 'p--'):
                sg = 1 if v[1] == 'p++' else -1
            elif p:
                if len(p) != 1 or l[p[0]] != 1 or set(l) - {p[0], 1} or l.get(1, 0) not in (1, -1):
                    okk = False
                    break
                sg = l[1]
            else:
                if l not in starts:
                    starts.append({k: q for k, q in l.items() if q})
                continue
            if sign and sg != sign:
                okk = False
                break
            sign = sg
        if not okk or not sign or len(starts) != 1:
            continue
        # normalise to  ph OP bound
        rest = {k: v for k, v in d.items() if k != ph0 and v}
        bound = {k: -v * d[ph0] for k, v in rest.items()}
        side = op if d[ph0] == 1 else {'<': '>', '<=': '>=', '==': '==', '!=': '!='}[op]
        one = {1: 1}
        lims = {('<', 1): (1, ladd(bound, one, -1)), ('<=', 1): (1, bound), ('!=', 1): (1, ladd(bound, one, -1)), ('>=', 1): (0, ladd(bound, one, -1)), ('>', 1): (0, bound), ('==', 1): (0, ladd(bound, one, -1)),
                ('>', -1): (1, ladd(bound, one)), ('>=', -1): (1, bound), ('!=', -1): (1, ladd(bound, one)), ('<=', -1): (0, ladd(bound, one)), ('<', -1): (0, bound), ('==', -1): (0, ladd(bound, one))}
        more, lim = lims[(side, sign)]
        return (ph, starts[0], lim, more) if sign > 0 else (ph, lim, starts[0], more)
    return None


def idx_range(E, t, ranges):
    """(lo, hi) linear forms of an index term over the loops in ranges {phi: (lo, hi)}; None if not linear in one of them"""
    l = {k: v for k, v in lin(t).items() if v}
    p = [s for s in l if isinstance(s, tuple) and s[0] == 'phi']
    if not p:
        return l, l
    if len(p) != 1 or p[0] not in ranges or l[p[0]] not in (1, -1):
        return None
    lo, hi = ranges[p[0]]
    rest = {k: v for k, v in l.items() if k != p[0]}
    a, b = ladd(rest, lo, l[p[0]]), ladd(rest, hi, l[p[0]])
    return (a, b) if l[p[0]] == 1 else (b, a)


class Ranges(Rule):
    """records counting loops and, for selected events, terms"""

    def __init__(self, E, keys, pick, no_inline=(), max_depth=5):
        self.E, self.keys, self._p = E, keys, pick
        self.no_inline, self.max_depth = no_inline, max_depth
        self.init = 0
        self.reset()

    def reset(self):
        self.ranges = {}
        self.hits = []

    def event(self, f, ev, st):
        if self.final:
            x = self._p(ev)
            if x is not None:
                self.hits.append((ev, x))
        return f

    def branch(self, f, atom, pol, ev):
        r = loop_cond(self.E, atom, pol) if ev.inl else None
        if r:
            self.ranges[r[0]] = (r[1], r[2])
        return f
