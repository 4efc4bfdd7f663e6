"""Interprocedural property simulation over the extracted control-flow graphs.

A rule is a small automaton.  Its state ("facts") is a hashable value that changes on events (calls,
writes, declarations, destructors, throws) and on branch outcomes (atoms in canonical form).  The engine
runs the rule over every path of an entry function, following calls into repository functions that can
produce an event of the rule (so extracting or inlining a helper does not matter), and keeps paths apart
exactly as long as their facts or the constant values of their boolean variables differ.
Values of local variables are carried as canonical terms (value numbering), so that introducing a
temporary, renaming a variable, inverting a condition or swapping the operands of a comparison yields
the same atom.  No path is executed and no solver is called.
"""
import re, sys
from .facts import AnalysisBroken

sys.setrecursionlimit(20000)

T_INT, T_BOOL = 'int', 'bool'
TRUE, FALSE = ('bool', 1), ('bool', 0)
NULL = ('null',)
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SCALAR = re.compile(r'^(const |volatile )*(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|__int128|unsigned __int128)$')


def unwrap(t):
    while t[0] in ('copy', 'cast'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def known(t):
    """a literal, an enumerator or a constant"""
    return t[0] in ('int', 'enum') or t[0] == 'glob' and t[2] is not None


def is_scalar(t):
    return bool(SCALAR.match(t)) or t.endswith('*') or t.endswith('*const') or t.endswith('* const')


_pcache = {}


def param_types(fid):
    """parameter type strings of a function id"""
    r = _pcache.get(fid)
    if r is not None:
        return r
    s = fid
    # find the last top-level '(' group
    end = s.rfind(')')
    if end < 0 or '::$lambda' in s[end:]:
        _pcache[fid] = []
        return []
    depth = 0
    i = end
    while i >= 0:
        if s[i] == ')':
            depth += 1
        elif s[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    inner = s[i + 1:end]
    out, cur, d = [], '', 0
    for ch in inner:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    _pcache[fid] = [x.strip() for x in out]
    return _pcache[fid]


def mut_ref(t):
    """a parameter type through which the callee may change the argument"""
    if t.endswith('&&'):
        return False
    if t.endswith('&'):
        return not t.startswith('const ')
    if t.endswith('*'):
        return not t.startswith('const ')
    return False


class Ev:
    __slots__ = ('kind', 'term', 'fn', 'line', 'fid', 'qn', 'obj', 'args', 'lhs', 'rhs', 'op', 'type', 'var', 'stack', 'virt', 'inl', 'slot')

    def __init__(self, kind, fn, line, stack, **kw):
        self.kind, self.fn, self.line, self.stack = kind, fn, line, stack
        self.term = self.fid = self.qn = self.obj = self.args = self.lhs = self.rhs = self.op = self.type = self.var = self.slot = None
        self.virt = False
        self.inl = False
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def name(self):
        return self.qn.rsplit('::', 1)[-1] if self.qn else ''

    def loc(self):
        return self.fn.loc(self.line)


class State:
    __slots__ = ('facts', 'store', 'assume', 'trace')

    def __init__(self, facts, store, assume, trace):
        self.facts, self.store, self.assume, self.trace = facts, store, assume, trace

    def with_facts(self, f):
        return State(f, self.store, self.assume, self.trace)


class Frame:
    __slots__ = ('fn', 'this', 'depth', 'stack', 'vkeys')

    def __init__(self, fn, this, depth, stack):
        self.fn, self.this, self.depth, self.stack = fn, this, depth, stack


# functions of the standard library that take forwarding references and do not assign to them
FORWARD = {'emplace', 'emplace_back', 'emplace_front', 'emplace_hint', 'try_emplace', 'make_pair', 'make_tuple', 'make_shared', 'make_unique', 'forward_as_tuple', 'bind', 'async'}


class Rule:
    """override what is needed; facts must be hashable"""
    exc = 'explicit'        # 'explicit': only throw statements; 'try': any call inside a try block may throw; 'all'
    keys = None             # set of resolved names (or predicate on Fn) that make a function relevant; None = inline nothing
    max_depth = 7
    init = frozenset()
    no_inline = ()
    final = True
    zero_iter = True        # False: ignore paths on which a loop body is not entered at all

    def event(self, facts, ev, st):
        return facts

    def branch(self, facts, atom, pol, ev):
        return facts

    def leave(self, facts, kind, ret, ev, st):
        """exit of the entry function: kind 'ret' or 'exc'"""

    def merge(self, a, b):
        return None

    def want_inline(self, fn, ev, facts):
        return True


MAXSTATES = 400


class Engine:
    def __init__(self, F):
        self.F = F
        self.alts = {}
        self.rootparams = {}
        self.relcache = {}
        self.nicache = {}
        self.mcache = {}

    # ---- relevance -----------------------------------------------------
    def relevant(self, rule):
        k = rule.keys
        if k is None:
            return frozenset()
        key = k if callable(k) else frozenset(k)
        r = self.relcache.get(key)
        if r is None:
            if callable(k):
                r = self.F.reach(k)
            else:
                ks = frozenset(k)
                r = self.F.reach(lambda f: not ks.isdisjoint(f.names))
            self.relcache[key] = r
        return r

    def stopped(self, g):
        """no_inline holds qualified names, function ids and prefixes ending in '*'"""
        ni = self.rule.no_inline
        if not ni:
            return False
        c = self.nicache.get(ni)
        if c is None:
            c = self.nicache[ni] = (frozenset(ni), tuple(x[:-1] for x in ni if x.endswith('*')))
        return g.qn in c[0] or g.id in c[0] or bool(c[1]) and g.qn.startswith(c[1])

    # ---- terms ---------------------------------------------------------
    def mentions(self, term, pred, seen=None, follow=True):
        """does the term, or anything that flowed into it, satisfy pred"""
        if seen is None:
            seen = set()
        stack = [term]
        while stack:
            t = stack.pop()
            if not isinstance(t, tuple) or not t:
                continue
            if t in seen:
                continue
            seen.add(t)
            if isinstance(t[0], str) and pred(t):
                return True
            for x in t:
                if isinstance(x, tuple):
                    stack.append(x)
            if follow and t[0] in ('phi', 'obj', 'out'):
                for a in self.alts.get(t, ()):
                    stack.append(a)
        return False

    def addalt(self, t, a):
        s = self.alts.get(t)
        if s is None:
            s = self.alts[t] = set()
        if a not in s and len(s) < 200:
            s.add(a)
            self.altgrow = True

    def vkey(self, fr, vi):
        return fr.fn.vars[vi][4]

    def lookup(self, fr, st, vi):
        v = fr.fn.vars[vi]
        k = v[4]
        t = st.store.get(k)
        if t is not None:
            return t
        ty = fr.fn.types[v[1]]
        if k in self.rootparams and v[2] != 'p':
            return self.rootparams[k]      # captured by a lambda
        if v[2] == 'p':
            return ('param', v[3], ty)
        if v[2] == 's':
            return ('slocal', k, ty)
        return ('obj', k, ty)

    def term(self, fr, st, i):
        if i < 0:
            return ('none',)
        tk = '#%d:%d' % (fr.depth, i)
        t = st.store.get(tk)
        if t is not None:
            return t
        e = fr.fn.ex[i]
        k = e[0]
        T = lambda j: self.term(fr, st, j)
        if k == 'v':
            return self.lookup(fr, st, e[3])
        if k == 'm':
            b = T(e[3])
            while b[0] in ('deref', 'addr'):
                b = b[1]
            r = ('fld', b, e[4])
            return st.store.get(r, r)
        if k == 't':
            return fr.this
        if k == 'i':
            return ('int', int(e[3]))
        if k == 'B':
            return TRUE if e[3] else FALSE
        if k == 's':
            return ('str', e[3])
        if k == 'n':
            return NULL
        if k == 'f':
            return ('float', e[3])
        if k == 'e':
            return ('enum', e[3], int(e[4]))
        if k == 'g':
            return ('glob', e[3], int(e[4]) if e[4] is not None else None)
        if k == 'F':
            return ('func', e[3], e[4])
        if k == 'b':
            op = e[3]
            if op in ('&&', '||'):
                a, b = T(e[4]), T(e[5])
                return ('logic', op, a, b)
            if op == ',':
                return T(e[5])
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                return T(e[4])
            a, b = T(e[4]), T(e[5])
            if op in NEG:
                return self.cmp(op, a, b)
            return self.arith(op, a, b)
        if k == 'u':
            op = e[3]
            x = T(e[4])
            if op == '!':
                return self.neg(x)
            if op == '*':
                return x[1] if x[0] == 'addr' else ('deref', x)
            if op == '&':
                return x[1] if x[0] == 'deref' else ('addr', x)
            if op in ('++', '--', '+'):
                return x
            if op in ('p++', 'p--'):
                return ('un', op, x)
            return ('un', op, x)
        if k == 'c':
            return self.callterm(fr, e, T(e[5]) if e[5] >= 0 else None, tuple(T(a) for a in e[6]), T)
        if k == 'k':
            a = tuple(T(x) for x in e[5])
            if e[6] in ('c', 'm') and len(a) >= 1:
                return a[0]
            n = e[3]
            if len(a) == 1 and (n in ('std::basic_string', 'common::ArrayView', 'common::StringView', 'std::function', 'std::unique_ptr', 'std::shared_ptr',
                                      'boost::variant', 'boost::optional', 'std::error_code', 'std::chrono::duration') or n.endswith('iterator')):
                return a[0]
            return ('ctor', n, a)
        if k == 'q':
            return ('cond', T(e[3]), T(e[4]), T(e[5]))
        if k == 'x':
            return ('idx', T(e[3]), T(e[4]))
        if k == 'z':
            x = T(e[3])
            ty = fr.fn.types[e[1]]
            if x[0] in ('int', 'bool', 'enum') and SCALAR.match(ty) and ty != 'bool':
                return ('int', x[-1]) if x[0] != 'enum' else ('int', x[2])
            if is_scalar(ty) and not ty.endswith('*'):
                sub = fr.fn.ex[e[3]]
                sty = fr.fn.types[sub[1]]
                if ty == 'bool' and sty != 'bool':
                    return self.truth(x)
                if width(ty) >= width(sty) and not isfloat(ty) and not isfloat(sty):
                    return x
                return ('cast', ty, x)
            if ty == 'void':
                return x
            return x if x[0] != 'init' else x
        if k == 'y':
            x = T(e[3])
            ty = fr.fn.types[e[1]]
            if x[0] == 'bool' and ty != 'bool':
                return ('int', x[1])
            if x[0] == 'int':
                return x
            return ('cast', ty, x)
        if k == 'N':
            return ('new', fr.fn.types[e[3]], tuple(T(a) for a in e[4]), T(e[5]) if e[5] >= 0 else None)
        if k == 'I':
            a = tuple(T(a) for a in e[3])
            return a[0] if len(a) == 1 and is_scalar(fr.fn.types[e[1]]) else ('init', fr.fn.types[e[1]], a)
        if k == 'L':
            return ('lam', e[3], fr.this)
        if k == 'o':
            return ('other', e[3], tuple(T(a) for a in e[4]))
        return ('other', k, ())

    def arith(self, op, a, b):
        if op in ('+', '*', '|', '&', '^') and a[0] not in ('str',):
            if repr(b) < repr(a):
                a, b = b, a
        return ('op', op, a, b)

    def neg(self, x):
        if x == TRUE:
            return FALSE
        if x == FALSE:
            return TRUE
        if x[0] == 'not':
            return x[1]
        if x[0] == 'cmp':
            return self.cmp(NEG[x[1]], x[2], x[3])
        return ('not', x)

    def truth(self, x):
        if x[0] == 'bool' or x[0] in ('not', 'cmp', 'logic'):
            return x
        if x[0] == 'int':
            return TRUE if x[1] else FALSE
        return x

    def cmp(self, op, a, b):
        """canonical comparison: only <, <=, ==, != remain and == / != have sorted operands"""
        if op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            op, a, b = '<=', b, a
        if op in ('==', '!='):
            # membership tests
            for x, y in ((a, b), (b, a)):
                if x[0] == 'call' and y[0] == 'call':
                    xn, yn = x[1].rsplit('::', 1)[-1], y[1].rsplit('::', 1)[-1]
                    if xn in ('find',) and yn in ('end', 'cend') and x[2] == y[2] and x[3]:
                        t = ('in', x[2], x[3][0])
                        return t if op == '!=' else ('not', t)
                    if xn in ('find', 'find_if') and yn in ('end', 'cend') and x[2] is None and len(x[3]) == 3 and yn:
                        t = ('in', self.containerof(x[3][0]), x[3][2])
                        return t if op == '!=' else ('not', t)
                    if xn in ('begin', 'cbegin') and yn in ('end', 'cend') and x[2] == y[2] and x[3] == y[3]:
                        t = ('empty', x[2] if x[2] is not None else x[3][0])
                        return t if op == '==' else ('not', t)
                if y == ('int', 0) and x[0] == 'count':
                    t = ('in', x[1], x[2])
                    return t if op == '!=' else ('not', t)
                if y == ('int', 0) and x[0] == 'size':
                    t = ('empty', x[1])
                    return t if op == '==' else ('not', t)
                if y in (TRUE, FALSE):
                    r = self.truth(x)
                    same = (op == '==') == (y == TRUE)
                    return r if same else self.neg(r)
                if y == NULL or y == ('int', 0) and x[0] in ('not', 'cmp', 'logic', 'in', 'empty'):
                    return x if op == '!=' else self.neg(x)
            if known(a) and known(b):
                eq = a[-1] == b[-1]
                return TRUE if eq == (op == '==') else FALSE
            va, vb = unwrap(a), unwrap(b)
            isend = lambda t: t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('end', 'cend')
            if va[0] == 'found' and isend(vb) or vb[0] == 'found' and isend(va):
                return FALSE if op == '==' else TRUE    # the element that a search stopped at
            if va == vb and isend(va):
                return TRUE if op == '==' else FALSE
            if repr(b) < repr(a):
                a, b = b, a
            return ('cmp', op, a, b)
        # 0 < count / 0 < size
        if op == '<' and a == ('int', 0):
            if b[0] == 'count':
                return ('in', b[1], b[2])
            if b[0] == 'size':
                return ('not', ('empty', b[1]))
        if op == '<=' and a == ('int', 1):
            if b[0] == 'size':
                return ('not', ('empty', b[1]))
            if b[0] == 'count':
                return ('in', b[1], b[2])
        if op == '<' and b == ('int', 1) and a[0] == 'size':
            return ('empty', a[1])
        if op == '<=' and b == ('int', 0) and a[0] == 'size':
            return ('empty', a[1])
        if known(a) and known(b):
            r = a[-1] < b[-1] if op == '<' else a[-1] <= b[-1]
            return TRUE if r else FALSE
        return ('cmp', op, a, b)

    def containerof(self, it):
        if it[0] == 'call' and it[1].rsplit('::', 1)[-1] in ('begin', 'cbegin', 'rbegin', 'end'):
            return it[2] if it[2] is not None else (it[3][0] if it[3] else it)
        return it

    def callterm(self, fr, e, obj, args, T):
        qn = e[4]
        n = qn.rsplit('::', 1)[-1]
        if n in ('get', 'relaxed_get', 'strict_get', 'dynamic_pointer_cast', 'any_cast') and qn.startswith('boost::') and len(args) == 1:
            f = e[3]
            i = f.find('<')
            ty = first_targ(f[i + 1:]) if i >= 0 else ''
            a = args[0]
            while a[0] in ('addr', 'deref'):
                a = a[1]
            return ('vget', ty, a)
        if qn.startswith('std::') or qn.startswith('boost::') or qn.startswith('phmap::'):
            if n in ('move', 'forward', 'ref', 'cref', 'addressof', 'get') and qn in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'boost::value_initialized::data') and len(args) == 1:
                return args[0]
            if obj is not None:
                if n == 'operator*' and not args:
                    return obj[1] if obj[0] == 'addr' else ('deref', obj)
                if n == 'operator->' and not args:
                    return obj
                if n == 'get' and not args and ('_ptr' in qn or 'reference_wrapper' in qn or 'optional' in qn):
                    return obj
                if n == 'operator bool' and not args:
                    return obj if 'error_code' not in qn else ('call', qn, obj, ())
                if n in ('c_str', 'str') and not args:
                    return obj
                if n == 'empty' and not args:
                    return ('empty', obj)
                if n in ('size', 'length') and not args:
                    return ('size', obj)
                if n == 'count' and len(args) == 1:
                    return ('count', obj, args[0])
                if n == 'contains' and len(args) == 1:
                    return ('in', obj, args[0])
                if n in ('operator[]', 'at') and len(args) == 1:
                    return ('idx', obj, args[0])
                if n in ('load',) and 'atomic' in qn:
                    return obj
                if n.startswith('operator ') and 'atomic' in qn:
                    return obj
            if n in ('begin', 'end', 'cbegin', 'cend') and obj is None and len(args) == 1:
                return ('call', 'std::' + n, args[0], ())
        if n == 'operator*' and obj is not None and not args and ('iterator' in qn or 'Iterator' in qn):
            return obj[1] if obj[0] == 'addr' else ('deref', obj)
        if n == 'operator->' and obj is not None and not args and ('iterator' in qn or 'Iterator' in qn):
            return obj
        if n in ('begin', 'end', 'cbegin', 'cend') and obj is not None and not args:
            return ('call', 'std::' + n.lstrip('c') if n[0] == 'c' else 'std::' + n, obj, ())
        if n.startswith('operator') and n[8:] in NEG:
            ops = ([obj] if obj is not None else []) + list(args)
            if len(ops) == 2:
                return self.cmp(n[8:], ops[0], ops[1])
        if n == 'operator=' and obj is not None and len(args) == 1:
            return obj
        if n == 'operator!' and obj is not None and not args:
            return self.neg(obj)
        if not qn:
            ce = T(e[8]) if e[8] >= 0 else ('none',)
            return ('icall', ce, args)
        return ('call', qn, obj, args)

    # ---- running -------------------------------------------------------
    def run(self, rule, fn, init=None, this=('this',), store=None):
        rel = self.relevant(rule)
        self.viol = []
        self.alts.clear()
        self.rootparams = {v[4]: ('param', v[3], fn.types[v[1]]) for v in fn.vars if v[2] == 'p'}
        for attempt in range(4):
            self.altgrow = False
            self.memo = {}
            self.steps = 0
            self.inlined = set()
            self.calls_seen = 0
            self.rule, self.rel = rule, rel
            rule.final = True
            if hasattr(rule, 'reset'):
                rule.reset()
            fr = Frame(fn, this, 0, (fn.id,))
            st = State(rule.init if init is None else init, dict(store or {}), frozenset(), None)
            exits = self.simulate(fr, st)
            if not self.altgrow:
                break
        for kind, ret, s, line in exits:
            ev = Ev('exit', fn, line, fr.stack)
            rule.leave(s.facts, kind, ret, ev, s)
        self.exits = exits
        return exits

    def path(self, st, limit=40):
        out = []
        t = st.trace
        while t is not None and len(out) < 400:
            out.append(t[0])
            t = t[1]
        out.reverse()
        res = []
        for x in out:
            if not res or res[-1] != x:
                res.append(x)
        return res[-limit:]

    def proj(self, st):
        out = []
        for k, v in st.store.items():
            if v[0] in ('bool', 'enum') or (v[0] == 'int' and isinstance(k, str) and k[0] in '?@'):
                out.append((k if isinstance(k, str) else repr(k), v))
            elif v[0] in ('null', 'str') and isinstance(k, str):
                out.append((k, ('ptr', v[0])))      # a pointer that says whether something was found wrong
        out.sort(key=lambda kv: kv[0])
        return tuple(out)

    def merge_into(self, table, fr, bid, st):
        """returns the state to (re)process or None"""
        key = (st.facts, self.proj(st))
        mf = self.rule.merge
        if len(table) > 0:
            old = table.get(key)
            if old is None:
                for k2, o in table.items():
                    m = mf(o.facts, st.facts)
                    if m is not None and k2[1] == key[1]:
                        if m == o.facts:
                            st = st.with_facts(m)
                            old, key = o, k2
                        else:
                            del table[k2]
                            o = o.with_facts(m)
                            st = st.with_facts(m)
                            key = (m, key[1])
                            if key in table:
                                pass
                            r = self.join(fr, bid, o, st)
                            r = r or o
                            table[key] = r
                            return r
                        break
            if old is None and len(table) > MAXSTATES:
                raise AnalysisBroken('too many states in %s' % fr.fn.id)
        else:
            old = None
        if old is None:
            table[key] = st
            return st
        r = self.join(fr, bid, old, st)
        if r is not None:
            table[key] = r
        return r

    def join(self, fr, bid, old, st):
        changed = False
        ns = dict(old.store)
        for k, v in old.store.items():
            w = st.store.get(k)
            if w is None and isinstance(k, str):
                w = self.rootparams.get(k)      # a parameter that was assigned on one of the two paths only
            if w == v:
                continue
            if w is None:
                if isinstance(k, str) and k.startswith('#'):
                    ns.pop(k)
                    changed = True
                elif not isinstance(k, str):
                    ns.pop(k)
                    changed = True
                continue
            if isinstance(k, tuple):
                ns.pop(k)
                changed = True
                continue
            p = ('phi', fr.fn.id, bid, k)
            if v == p:
                self.addalt(p, w)
                continue
            self.addalt(p, v)
            self.addalt(p, w)
            ns[k] = p
            changed = True
        for k, w in st.store.items():
            if k not in old.store and isinstance(k, str) and k[0] not in '#@':
                d = self.rootparams.get(k)
                if d is not None and d != w:
                    p = ('phi', fr.fn.id, bid, k)
                    if w != p:
                        self.addalt(p, w)
                    self.addalt(p, d)
                    w = p
                ns[k] = w
                changed = True
        as_ = old.assume & st.assume
        if as_ != old.assume:
            changed = True
        if not changed:
            return None
        return State(old.facts, ns, as_, old.trace)

    def simulate(self, fr, st0):
        fn = fr.fn
        blocks = fn.blocks
        tables = {}
        exits = []
        work = []

        # blocks that re-enter a loop: assumptions on values changing there are dropped
        def enter(bid, st):
            a = st.assume
            if a:
                na = frozenset(x for x in a if not (fn.id, bid) in x[2])
                if na is not a and len(na) != len(a):
                    st = State(st.facts, st.store, na, st.trace)
            lp = loops.get(bid)
            if lp is not None:
                # values changed by the loop get a name of their own at the head; variables of the body are dead
                ns = None
                for k in lp[0]:
                    v = st.store.get(k)
                    if v is None or v[0] in ('bool', 'enum', 'undef', 'obj'):
                        continue
                    p = ('phi', fn.id, bid, k)
                    if v != p:
                        self.addalt(p, v)
                        if ns is None:
                            ns = dict(st.store)
                        ns[k] = p
                for k in lp[1]:
                    if k in st.store:
                        if ns is None:
                            ns = dict(st.store)
                        del ns[k]
                if ns is not None:
                    st = State(st.facts, ns, st.assume, st.trace)
            r = self.merge_into(tables.setdefault(bid, {}), fr, bid, st)
            if r is not None:
                work.append((bid, r))

        loops = self.loops(fn)
        final, self.rule.final = self.rule.final, False
        enter(fn.entry, st0)
        while work:
            bid, st = work.pop()
            self.steps += 1
            if self.steps > 400000:
                raise AnalysisBroken('simulation of %s did not finish' % fn.id)
            b = blocks[bid]
            if bid == fn.exit:
                continue
            self.block(fr, b, st, enter, exits)
        # fixpoint reached: one sweep over the stable states; only this sweep reports
        self.rule.final = final
        del exits[:]
        sink = lambda bid, st: None
        for bid, tab in tables.items():
            if bid == fn.exit:
                continue
            for st in list(tab.values()):
                self.steps += 1
                self.block(fr, blocks[bid], st, sink, exits)
        self.rule.final = final
        # merge equal exits
        out = {}
        for kind, ret, s, line in exits:
            k = (kind, ret, s.facts)
            if k in out:
                o = out[k]
                r = self.join(fr, -1, o[2], s)
                if r is not None:
                    out[k] = (kind, ret, r, o[3])
            else:
                out[k] = (kind, ret, s, line)
        return list(out.values())

    def block(self, fr, b, st, enter, exits):
        fn = fr.fn
        states = [(st, None)]
        eh = None
        if not b.tk and len(b.succs) >= 2:
            eh = b.succs[1]
        if b.label and b.label[0] == 'catch':
            states = [(x, None) for x in self.fire(st, Ev('catch', fn, b.line, fr.stack, type=b.label[1]))]
        for idx, el in enumerate(b.elems):
            nxt = []
            for s, r in states:
                if r is not None:
                    nxt.append((s, r))
                    continue
                for s2, r2 in self.element(fr, b, s, el, idx):
                    nxt.append((s2, r2))
            states = nxt
        for s, r in states:
            if r is not None:
                kind, val, line = r
                if kind == 'exc':
                    # a throw, here or in an inlined callee
                    tgt = eh if eh is not None else (b.succs[0] if (b.succs and self.isthrow(fr, b)) else None)
                    if tgt is None or tgt == fn.exit:
                        exits.append(('exc', val, self.leave_frame(fr, s), line))
                    else:
                        enter(tgt, s)
                    continue
            self.transfer(fr, b, s, enter, exits, eh)

    def isthrow(self, fr, b):
        for el in reversed(b.elems):
            if el[0] == 'E':
                return fr.fn.ex[el[1]][0] == 'T'
        return False

    def leave_frame(self, fr, s):
        return s

    def go(self, fr, s, tgt, enter, exits, line):
        if tgt is None:
            return
        if tgt == fr.fn.exit:
            v = s.store.get('$ret%d' % fr.depth, ('none',))
            l = s.store.get('$line%d' % fr.depth, ('int', line or fr.fn.d['end']))
            ns = {k: x for k, x in s.store.items() if not (isinstance(k, str) and (k.startswith('#%d:' % fr.depth) or k in ('$ret%d' % fr.depth, '$line%d' % fr.depth)))}
            exits.append(('ret', v, State(s.facts, ns, s.assume, s.trace), l[1]))
            return
        enter(tgt, s)

    def transfer(self, fr, b, s, enter, exits, eh):
        fn = fr.fn
        tk = b.tk
        if not tk:
            if b.noret and not b.succs:
                return
            if not b.succs:
                return
            if self.isthrow(fr, b):
                return
            self.go(fr, s, b.succs[0], enter, exits, None)
            if eh is not None and self.rule.exc != 'explicit':
                if eh != fn.exit:
                    enter(eh, s)
                elif self.rule.exc == 'all':
                    ln = self.lastline(fr, b)
                    exits.append(('exc', ('thrown',), s, ln))
            return
        if tk == 'CXXTryStmt':
            for t in b.succs:
                if t is not None:
                    if t == fn.exit:
                        exits.append(('exc', ('thrown',), s, b.line))
                    else:
                        enter(t, s)
            return
        self.curloop = False
        if tk == 'SwitchStmt':
            self.switch(fr, b, s, enter, exits)
            return
        if b.cond < 0 or len(b.succs) < 2:
            for t in b.succs:
                self.go(fr, s, t, enter, exits, b.line)
            return
        cond = b.cond
        # the atom decided in this block
        ex = fn.ex
        tkey = '#%d:' % fr.depth
        if tk not in ('&&', '||', '?:'):
            while ex[cond][0] == 'b' and ex[cond][3] in ('&&', '||') and (tkey + str(cond)) not in s.store:
                cond = ex[cond][5]
        c = self.term(fr, s, cond)
        self.curloop = tk in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt') or b.id in self.loops(fn)
        loop = not self.rule.zero_iter and tk in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt')
        bk, bneg = self.boolvar(fr, s, cond)
        for pol, t in ((1, b.succs[0]), (0, b.succs[1])):
            for s2 in self.assume(fr, s, c, pol, b.line):
                if bk is not None:
                    # the outcome decides the value of the tested variable
                    s2 = State(s2.facts, dict(s2.store, **{bk: TRUE if pol != bneg else FALSE}), s2.assume, s2.trace)
                if tk in ('&&', '||', '?:'):
                    ns = dict(s2.store)
                    k = tkey + str(b.whole)
                    if tk == '&&':
                        if pol:
                            ns.pop(k, None)
                        else:
                            ns[k] = FALSE
                    elif tk == '||':
                        if pol:
                            ns[k] = TRUE
                        else:
                            ns.pop(k, None)
                    else:
                        w = ex[b.whole]
                        # value of the conditional: decided here, evaluated lazily
                        ns.pop(k, None)
                        ns['?%d:%d' % (fr.depth, b.whole)] = ('int', pol)
                    s2 = State(s2.facts, ns, s2.assume, s2.trace)
                s2 = State(s2.facts, s2.store, s2.assume, ('%s %s' % (fn.loc(b.line), 'true' if pol else 'false'), s2.trace))
                if loop:
                    lk = '@%d:%d' % (fr.depth, b.id)
                    if pol:
                        if lk not in s2.store:
                            s2 = State(s2.facts, dict(s2.store, **{lk: ('int', 1)}), s2.assume, s2.trace)
                    elif lk in s2.store:
                        ns = dict(s2.store)
                        del ns[lk]
                        s2 = State(s2.facts, ns, s2.assume, s2.trace)
                    else:
                        continue
                if t is not None:
                    self.go(fr, s2, t, enter, exits, b.line)

    def boolvar(self, fr, s, i):
        """key of the local bool variable a condition consists of, and whether it is negated"""
        ex, neg = fr.fn.ex, 0
        while True:
            e = ex[i]
            if e[0] == 'u' and e[3] == '!':
                neg, i = 1 - neg, e[4]
            elif e[0] == 'z':
                i = e[3]
            else:
                break
        if e[0] != 'v':
            return None, 0
        v = fr.fn.vars[e[3]]
        if v[2] not in ('l', 'p') or fr.fn.types[v[1]].replace('const ', '') != 'bool' or v[4] not in s.store or '&' + v[4] in s.store:
            return None, 0
        return v[4], neg

    def lastline(self, fr, b):
        for el in reversed(b.elems):
            if el[0] == 'E':
                return fr.fn.ex[el[1]][2]
            if el[0] in ('d', 'r'):
                return el[-1]
        return b.line or fr.fn.line

    def switch(self, fr, b, s, enter, exits):
        c = self.term(fr, s, b.cond) if b.cond >= 0 else ('none',)
        blocks = fr.fn.blocks
        vals = []
        for t in b.succs:
            if t is None:
                continue
            lab = blocks[t].label
            if lab and lab[0] == 'case':
                v = self.term(fr, s, lab[1])
                vals.append(v)
        for t in b.succs:
            if t is None:
                continue
            lab = blocks[t].label
            if lab and lab[0] == 'case':
                v = self.term(fr, s, lab[1])
                for s2 in self.assume(fr, s, self.cmp('==', c, v), 1, b.line):
                    self.go(fr, State(s2.facts, s2.store, s2.assume, ('%s case' % fr.fn.loc(b.line), s2.trace)), t, enter, exits, b.line)
            else:
                sts = [s]
                for v in vals:
                    sts = [y for x in sts for y in self.assume(fr, x, self.cmp('==', c, v), 0, b.line)]
                for s2 in sts:
                    self.go(fr, State(s2.facts, s2.store, s2.assume, ('%s default' % fr.fn.loc(b.line), s2.trace)), t, enter, exits, b.line)

    def loops(self, fn):
        """loop head -> (keys of variables changed in the loop, keys of variables declared in it)"""
        r = getattr(fn, '_loops', None)
        if r is not None:
            return r
        blocks = fn.blocks
        preds = {}
        for b in blocks.values():
            for t in b.succs:
                if t is not None:
                    preds.setdefault(t, []).append(b.id)
        # back edges by depth-first search
        color, back = {}, []
        stack = [(fn.entry, iter([t for t in blocks[fn.entry].succs if t is not None]))]
        color[fn.entry] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color.get(v) == 1:
                    back.append((u, v))
                elif v not in color:
                    color[v] = 1
                    stack.append((v, iter([t for t in blocks[v].succs if t is not None])))
                    break
            else:
                color[u] = 2
                stack.pop()
        res = {}
        for u, h in back:
            body = {h, u}
            work = [u] if u != h else []
            while work:
                x = work.pop()
                for q in preds.get(x, ()):
                    if q not in body:
                        body.add(q)
                        work.append(q)
            mod, dec = res.setdefault(h, (set(), set()))
            for bid in body:
                for el in blocks[bid].elems:
                    if el[0] == 'd':
                        dec.add(fn.vars[el[1]][4])
                    elif el[0] == 'E':
                        self.modified(fn, el[1], mod)
        for h, (mod, dec) in res.items():
            mod -= dec
        fn._loops = res
        return res

    def modified(self, fn, i, out):
        e = fn.ex[i]
        k = e[0]
        t = None
        if k == 'b':
            t = [e[4]]
        elif k == 'u':
            t = [e[4]]
        elif k == 'c':
            t = []
            if '::$lambda' in (e[3] or '') and e[3] in self.F.fns:
                out |= self.captured_writes(self.F.fns[e[3]])     # a local helper that writes what it captured
            if e[4].endswith(('operator=', 'operator++', 'operator--', 'operator+=', 'operator-=')) and e[5] >= 0:
                t.append(e[5])
            pts = param_types(e[3]) if e[3] else []
            for j, a in enumerate(e[6]):
                if j < len(pts) and mut_ref(pts[j]):
                    t.append(a)
        elif k == 'k':
            t = []
            pts = param_types(e[4]) if e[4] else []
            for j, a in enumerate(e[5]):
                if j < len(pts) and mut_ref(pts[j]):
                    t.append(a)
        for x in t or ():
            y = fn.ex[x]
            if y[0] == 'u' and y[3] == '&':
                y = fn.ex[y[4]]
            if y[0] == 'v':
                out.add(fn.vars[y[3]][4])

    def localonly(self, t):
        """a term whose value cannot change: built from constants, parameters and value-numbered locals"""
        k = (t,)
        r = self.mcache.get(k)
        if r is None:
            r = self._localonly(t)
            self.mcache[k] = r
        return r

    def _localonly(self, t):
        if t[0] in ('call', 'icall', 'fld', 'idx', 'deref', 'size', 'empty', 'in', 'count', 'other', 'glob', 'slocal', 'this', 'lam', 'new', 'thrown'):
            if t[0] == 'glob' and t[2] is not None:
                return True
            return False
        if t[0] == 'obj':
            return False
        return all(self._localonly(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                   all(self._localonly(y) for y in x if isinstance(y, tuple) and y) if isinstance(x, tuple) else True for x in t[1:])

    def phis(self, t):
        out = set()

        def w(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'phi':
                    out.add((t[1], t[2]))
                    return
                for x in t:
                    if isinstance(x, tuple):
                        w(x)
        w(t)
        return frozenset(out)

    def assume(self, fr, s, t, pol, line):
        """refine state s by `t == pol`; list of resulting states (empty: infeasible)"""
        t = self.resolve_cond(fr, s, t)
        while t[0] == 'not':
            t, pol = t[1], 1 - pol
        if t[0] == 'count':
            t = ('in', t[1], t[2])
        elif t[0] == 'size':
            t, pol = ('empty', t[1]), 1 - pol
        if t[0] == 'bool':
            return [s] if t[1] == pol else []
        if t[0] == 'int':
            return [s] if bool(t[1]) == bool(pol) else []
        if t[0] == 'null':
            return [s] if not pol else []
        if t[0] == 'str':
            return [s] if pol else []
        if t[0] == 'cmp' and t[1] in ('==', '!=') and t[2][0] in ('null', 'str') and t[3][0] in ('null', 'str') and 'null' in (t[2][0], t[3][0]):
            return [s] if ((t[2][0] == t[3][0]) == (t[1] == '==')) == bool(pol) else []
        if t[0] == 'logic':
            op = t[1]
            if (op == '&&') == bool(pol):
                out = []
                for s1 in self.assume(fr, s, t[2], pol, line):
                    out += self.assume(fr, s1, t[3], pol, line)
                return out
            out = self.assume(fr, s, t[2], pol, line)
            for s1 in self.assume(fr, s, t[2], 1 - pol, line):
                out += self.assume(fr, s1, t[3], pol, line)
            return self.dedupe(out)
        if t[0] == 'cond':
            out = []
            for s1 in self.assume(fr, s, t[1], 1, line):
                out += self.assume(fr, s1, t[2], pol, line)
            for s1 in self.assume(fr, s, t[1], 0, line):
                out += self.assume(fr, s1, t[3], pol, line)
            return self.dedupe(out)
        if t[0] == 'phi':
            # values that can reach here: keep the alternatives that are compatible
            out = []
            alts = self.alts.get(t, ())
            flat, seen, stack = [], set(), list(alts)
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == 'phi':
                    stack += list(self.alts.get(x, ()))
                else:
                    flat.append(x)
            if flat and len(flat) <= 6 and all(x[0] in ('bool', 'call', 'not', 'cmp', 'in', 'empty', 'logic', 'int', 'str', 'null') for x in flat):
                for x in flat:
                    if x[0] in ('cmp', 'in', 'empty', 'call', 'not', 'logic'):
                        f2 = self.rulebranch(fr, s, x, pol, line)
                        for f in f2:
                            out.append(s.with_facts(f))
                    elif (x[0] == 'str' or x[0] != 'null' and bool(x[-1])) == bool(pol):
                        out.append(s)
                return self.dedupe(out)
        if t[0] == 'cmp' and not pol:
            t, pol = self.neg(t), 1
            if t[0] == 'not':
                t, pol = t[1], 0
        if self.localonly(t):
            for (a, p, ph) in s.assume:
                if a == t:
                    if p != pol:
                        return []
                    break
                if p and pol and a == self.neg(t):
                    return []
            else:
                s = State(s.facts, s.store, s.assume | {(t, pol, self.phis(t))}, s.trace)
            # an equality with a constant decides other equalities on the same value
            if t[0] == 'cmp' and t[1] == '==':
                for (a, p, ph) in s.assume:
                    if a[0] == 'cmp' and a[1] == '==' and p and a != t:
                        for x, y in ((t[2], t[3]), (t[3], t[2])):
                            for u, v in ((a[2], a[3]), (a[3], a[2])):
                                if x == u and y[0] in ('int', 'enum') and v[0] in ('int', 'enum') and y[-1] != v[-1]:
                                    return []
        return [s.with_facts(f) if f != s.facts else s for f in self.rulebranch(fr, s, t, pol, line)]

    def dedupe(self, sts):
        out = {}
        for s in sts:
            k = (s.facts, self.proj(s))
            if k not in out:
                out[k] = s
            else:
                o = out[k]
                a = o.assume & s.assume
                if a != o.assume:
                    out[k] = State(o.facts, o.store, a, o.trace)
        return list(out.values())

    def resolve_cond(self, fr, s, t):
        if t[0] == 'cast':
            return t
        return t

    def rulebranch(self, fr, s, t, pol, line):
        if t[0] == 'cmp' and not pol:
            t = self.neg(t)
            pol = 1
            if t[0] == 'not':
                t, pol = t[1], 0
        ev = Ev('branch', fr.fn, line, fr.stack, inl=self.curloop)
        r = self.rule.branch(s.facts, t, pol, ev)
        if r is None:
            return [s.facts]
        return r if isinstance(r, list) else [r]

    # ---- elements ------------------------------------------------------
    def element(self, fr, b, s, el, idx):
        """yields (state, None) or (state, ('ret', term, line)) or (state, ('exc', term, line))"""
        fn = fr.fn
        k = el[0]
        if k == 'E':
            return self.expr_event(fr, b, s, el[1])
        if k == 'd':
            v = fn.vars[el[1]]
            ty = fn.types[v[1]]
            ex = el[2]
            key = v[4]
            if ex >= 0:
                t = self.value(fr, s, ex)
            else:
                t = None
            ns = dict(s.store)
            ref = ty.endswith('&') or ty.endswith('&&')
            if v[2] == 's':
                pass
            elif t is None:
                ns[key] = ('obj', key, ty) if not is_scalar(ty) else ('undef', key)
            elif t[0] in ('ctor', 'init') and not ref:
                o = ('obj', key, ty)
                for a in t[2]:
                    self.addalt(o, a)
                ns[key] = o
            elif not is_scalar(ty) and not ref and self.iscopy(fn, ex) and not ty.startswith('const '):
                ns[key] = ('copy', t, key)
            else:
                ns[key] = t
            if ref and ex >= 0 and fn.ex[ex][0] == 'v':
                ns['&' + key] = ('alias', fn.vars[fn.ex[ex][3]][4])
            s = State(s.facts, ns, s.assume, s.trace)
            ev = Ev('decl', fn, el[3], fr.stack, var=key, type=ty, term=ns.get(key), rhs=t,
                    fid=fn.ex[ex][4] if ex >= 0 and fn.ex[ex][0] == 'k' else '', args=(tuple(self.term(fr, s, a) for a in fn.ex[ex][5]) if ex >= 0 and fn.ex[ex][0] == 'k' else ()))
            return [(x, None) for x in self.fire(s, ev)]
        if k == 'r':
            t = self.value(fr, s, el[1]) if el[1] >= 0 else ('none',)
            s = State(s.facts, s.store, s.assume, ('%s return' % fn.loc(el[2]), s.trace))
            ev = Ev('return', fn, el[2], fr.stack, term=t)
            rk, lk = '$ret%d' % fr.depth, '$line%d' % fr.depth
            return [(State(x.facts, dict(x.store, **{rk: t, lk: ('int', el[2])}), x.assume, x.trace), None) for x in self.fire(s, ev)]
        if k == '~':
            v = fn.vars[el[1]]
            ev = Ev('dtor', fn, el[2], fr.stack, var=v[4], type=fn.types[v[1]], term=s.store.get(v[4]))
            return [(x, None) for x in self.fire(s, ev)]
        if k == 'f':
            t = self.value(fr, s, el[2]) if el[2] >= 0 else ('none',)
            ev = Ev('write', fn, el[3], fr.stack, lhs=('fld', fr.this, el[1]), rhs=t, op='init')
            return [(x, None) for x in self.fire(s, ev)]
        return [(s, None)]

    def iscopy(self, fn, ex):
        e = fn.ex[ex]
        return e[0] == 'k' and e[6] in ('c', 'm')

    def value(self, fr, s, ex):
        e = fr.fn.ex[ex]
        if e[0] == 'q':
            d = s.store.get('?%d:%d' % (fr.depth, ex))
            if d is not None:
                return self.value(fr, s, e[4] if d[1] else e[5])
        return self.term(fr, s, ex)

    def fire(self, s, ev):
        r = self.rule.event(s.facts, ev, s)
        if r is None:
            return [s]
        if isinstance(r, list):
            return [s.with_facts(f) for f in r]
        return [s if r == s.facts else s.with_facts(r)]

    def setlv(self, fr, s, i, val):
        """assign val to the lvalue expression i"""
        e = fr.fn.ex[i]
        if e[0] == 'v':
            k = self.vkey(fr, e[3])
            ty = fr.fn.types[fr.fn.vars[e[3]][1]]
            alias = s.store.get('&' + k)
            if not is_scalar(ty.rstrip('&').strip()) and not self.smallval(ty):
                val = ('copy', val, k) if val[0] not in ('obj',) else val
            ns = dict(s.store)
            ns[k] = val
            if alias is not None:
                ns[alias[1]] = val
            return State(s.facts, ns, s.assume, s.trace)
        if e[0] == 'u' and e[3] == '*':
            return s
        return s

    def smallval(self, ty):
        return '<' not in ty and '::' in ty and not ty.startswith('std::') and True

    def expr_event(self, fr, b, s, i):
        fn = fr.fn
        e = fn.ex[i]
        k = e[0]
        line = e[2]
        if k == 'b':
            op = e[3]
            l = self.term(fr, s, e[4])
            r = self.value(fr, s, e[5])
            # assignment to the lvalue itself: name of the place, not its value
            place = self.place(fr, s, e[4])
            if op == '=':
                val = r
            else:
                val = self.arith(op[:-1], l, r)
            ev = Ev('write', fn, line, fr.stack, lhs=place, rhs=r, op=op, slot=self.slot(fr, s, e[4]))
            out = []
            for x in self.fire(s, ev):
                x = self.setlv(fr, x, e[4], val)
                x = self.setfield(x, place, val)
                out.append((x, None))
            return out
        if k == 'u':
            l = self.term(fr, s, e[4])
            place = self.place(fr, s, e[4])
            op = e[3].lstrip('p')
            val = self.arith(op[0], l, ('int', 1))
            ev = Ev('write', fn, line, fr.stack, lhs=place, rhs=('int', 1), op=op, slot=self.slot(fr, s, e[4]))
            out = []
            for x in self.fire(s, ev):
                x = self.setlv(fr, x, e[4], val)
                if e[3][0] == 'p':
                    x = State(x.facts, dict(x.store, **{'#%d:%d' % (fr.depth, i): l}), x.assume, x.trace)
                x = self.setfield(x, place, val)
                out.append((x, None))
            return out
        if k == 'T':
            t = self.value(fr, s, e[3]) if e[3] >= 0 else ('rethrow',)
            ev = Ev('throw', fn, line, fr.stack, term=t)
            return [(State(x.facts, x.store, x.assume, ('%s throw' % fn.loc(line), x.trace)), ('exc', t, line)) for x in self.fire(s, ev)]
        if k == 'N':
            ev = Ev('new', fn, line, fr.stack, type=fn.types[e[3]], rhs=self.term(fr, s, e[5]) if e[5] >= 0 else None, args=tuple(self.term(fr, s, a) for a in e[4]))
            return [(x, None) for x in self.fire(s, ev)]
        if k == 'D':
            ev = Ev('delete', fn, line, fr.stack, term=self.term(fr, s, e[3]))
            return [(x, None) for x in self.fire(s, ev)]
        if k == 'L':
            ev = Ev('lambda', fn, line, fr.stack, fid=e[3], term=('lam', e[3], fr.this))
            return [(x, None) for x in self.fire(s, ev)]
        if k in ('c', 'k'):
            return self.call(fr, b, s, i, e)
        return [(s, None)]

    def place(self, fr, s, i):
        e = fr.fn.ex[i]
        if e[0] == 'v':
            v = fr.fn.vars[e[3]]
            a = s.store.get('&' + v[4])
            ty = fr.fn.types[v[1]]
            if ty.endswith('&'):
                return self.lookup(fr, s, e[3])
            return ('var', v[4], ty)
        if e[0] == 'm':
            b = self.place(fr, s, e[3])
            if b[0] == 'var':
                b = self.lookup(fr, s, fr.fn.ex[e[3]][3]) if fr.fn.ex[e[3]][0] == 'v' else b
            while b[0] in ('deref', 'addr'):
                b = b[1]
            return ('fld', b, e[4])
        return self.term(fr, s, i)

    def slot(self, fr, s, i):
        """the variable (of the calling function, through reference parameters) that is written as a whole"""
        e = fr.fn.ex[i]
        if e[0] != 'v':
            return None
        k = fr.fn.vars[e[3]][4]
        seen = set()
        while '&' + k in s.store and k not in seen:
            seen.add(k)
            a = s.store['&' + k]
            if not isinstance(a, tuple) or a[0] != 'alias':
                break
            k = a[1]
        return k

    track_fields = frozenset()
    curloop = False

    def setfield(self, s, place, val):
        if place[0] == 'fld' and place[2] in self.rule_fields():
            ns = dict(s.store)
            ns[place] = val
            return State(s.facts, ns, s.assume, s.trace)
        return s

    def rule_fields(self):
        return getattr(self.rule, 'fields', ())

    def call(self, fr, b, s, i, e):
        fn = fr.fn
        line = e[2]
        if e[0] == 'c':
            fid, qn = e[3], e[4]
            obj = self.place_or_term(fr, s, e[5]) if e[5] >= 0 else None
            argx = e[6]
            virt = bool(e[7])
        else:
            fid, qn = e[4], e[3]
            obj, argx, virt = None, e[5], False
        args = tuple(self.value(fr, s, a) for a in argx)
        term = self.term(fr, s, i)
        # assignments by overloaded operator
        if e[0] == 'c' and qn.endswith('operator=') and obj is not None and len(args) == 1 and not self.has_body(fid, virt):
            place = self.place(fr, s, e[5])
            ev = Ev('write', fn, line, fr.stack, lhs=place, rhs=args[0], op='=', fid=fid, qn=qn, obj=obj, args=args, slot=self.slot(fr, s, e[5]))
            out = []
            for x in self.fire(s, ev):
                x = self.setlv(fr, x, e[5], args[0])
                x = self.setfield(x, place, args[0])
                out.append((x, None))
            return out
        # incrementing an iterator local
        if e[0] == 'c' and qn.endswith(('operator++', 'operator--')) and (obj is not None or args and (not qn.startswith('cn::'))) and not self.has_body(fid, virt):
            ev = Ev('call', fn, line, fr.stack, fid=fid, qn=qn, obj=obj, args=args, term=term)
            out = []
            for x in self.fire(s, ev):
                x = self.setlv(fr, x, e[5] if obj is not None else argx[0], ('op', qn[-2:], obj if obj is not None else args[0], ('int', 1)))
                out.append((x, None))
            return out
        ev = Ev('call' if e[0] == 'c' else 'ctor', fn, line, fr.stack, fid=fid, qn=qn, obj=obj, args=args, term=term, virt=virt)
        self.calls_seen += 1
        targets = []
        lamt = None
        if e[0] == 'c' and not fid and e[8] >= 0:
            ce = self.term(fr, s, e[8])
            if ce[0] == 'lam':
                lamt = ce
        if e[0] == 'c' and qn.endswith('operator()') and obj is not None:
            if obj[0] == 'lam':
                lamt = obj
        if lamt is None and e[0] == 'c' and '::$lambda' in fid and fid in self.F.fns:
            lamt = ('lam', fid, obj[2] if obj is not None and obj[0] == 'lam' else fr.this)
        if lamt is not None and lamt[1] in self.F.fns:
            targets = [(lamt[1], lamt[2])]
        elif fid:
            for t in self.F.resolve(fid, virt):
                th = obj
                if th is not None:
                    while th[0] in ('deref', 'addr'):
                        th = th[1]
                targets.append((t, th))
        todo = []
        for t, th in targets:
            if t not in self.rel or len(fr.stack) > self.rule.max_depth or t in fr.stack:
                continue
            g = self.F.fns[t]
            if self.stopped(g) or not self.rule.want_inline(g, ev, s.facts):
                continue
            todo.append((t, th))
        pre = s
        ev.inl = bool(todo)
        started = self.fire(s, ev)
        out = []
        for x in started:
            if todo:
                for t, th in todo:
                    out += self.inline(fr, x, i, e, t, th, argx, args, line)
                if len(targets) > len(todo):
                    out.append((self.havoc(fr, x, i, e, fid, qn, obj, argx, args), None))
                continue
            # lambdas handed to a function we do not look into
            walks = qn.startswith('std::') and qn.rsplit('::', 1)[-1] in VISITS
            lams = [(j, a) for j, a in enumerate(args) if a[0] == 'lam' and (walks or a[1] in self.rel) and a[1] in self.F.fns and a[1] not in fr.stack and not self.stopped(self.F.fns[a[1]])]
            if lams and len(fr.stack) <= self.rule.max_depth and self.rule.want_inline(self.F.fns[lams[0][1][1]], ev, s.facts):
                out += self.lambda_arg(fr, x, i, e, fid, qn, obj, argx, args, lams, line)
                continue
            out.append((self.havoc(fr, x, i, e, fid, qn, obj, argx, args), None))
        return out

    def has_body(self, fid, virt):
        return bool(self.F.resolve(fid, virt)) and any(t in self.rel for t in self.F.resolve(fid, virt))

    def place_or_term(self, fr, s, i):
        return self.value(fr, s, i)

    def havoc(self, fr, s, i, e, fid, qn, obj, argx, args):
        """effects of a call that is not followed"""
        ns = None
        pts = param_types(fid) if fid else []
        root = obj
        while root is not None and root[0] in ('deref', 'addr', 'copy'):
            root = root[1]
        if root is not None and root[0] == 'obj' and e[0] == 'c' and not fid.endswith(')const') and qn.rsplit('::', 1)[-1] not in ('find', 'count', 'contains', 'at', 'lower_bound', 'upper_bound', 'equal_range', 'erase', 'remove', 'compare'):
            for a in args:
                self.addalt(root, a)
        for j, ax in enumerate(argx):
            pt = pts[j] if j < len(pts) else ''
            if not fid:
                pt = ''
            if not mut_ref(pt) or not pt.endswith('*') and qn.startswith('std::') and qn.rsplit('::', 1)[-1] in FORWARD:
                continue
            ae = fr.fn.ex[ax]
            tgt = None
            if ae[0] == 'v':
                tgt = ae
            elif ae[0] == 'u' and ae[3] == '&' and fr.fn.ex[ae[4]][0] == 'v':
                tgt = fr.fn.ex[ae[4]]
            o = ('out', qn, j, obj, tuple(a for n, a in enumerate(args) if n != j and (n >= len(pts) or not mut_ref(pts[n]))))
            if tgt is not None:
                v = fr.fn.vars[tgt[3]]
                ty = fr.fn.types[v[1]]
                base = ty.rstrip('&').strip()
                if is_scalar(base) or self.smallval(base):
                    if ty.endswith('*'):
                        continue
                    if ns is None:
                        ns = dict(s.store)
                    cur = self.lookup(fr, s, tgt[3])
                    if cur[0] in ('obj', 'param', 'fld', 'copy') and not is_scalar(base):
                        if cur[0] == 'obj':
                            self.addalt(cur, o)
                        continue
                    ns[v[4]] = o
                    al = s.store.get('&' + v[4])
                    if al is not None:
                        ns[al[1]] = o
                    continue
            cur = args[j]
            while cur[0] in ('addr', 'deref', 'copy'):
                cur = cur[1]
            if cur[0] == 'obj':
                self.addalt(cur, o)
        # algorithms that write through an output iterator
        for j, a in enumerate(args):
            if a[0] == 'call' and a[2] is None and a[3] and a[1].rsplit('::', 1)[-1] in ('inserter', 'back_inserter', 'front_inserter'):
                cur = a[3][0]
                while cur[0] in ('addr', 'deref', 'copy'):
                    cur = cur[1]
                if cur[0] == 'obj':
                    self.addalt(cur, ('out', qn, j, obj, tuple(x for n, x in enumerate(args) if n != j)))
        # lambda arguments may write the variables they capture by reference: values become unknown
        for a in args:
            if a[0] == 'lam' and a[1] in self.F.fns:
                g = self.F.fns[a[1]]
                wr = self.captured_writes(g)
                for key in wr:
                    if key in s.store:
                        if ns is None:
                            ns = dict(s.store)
                        ns[key] = ('out', qn, key, None, ())
        if ns is None:
            return s
        return State(s.facts, ns, s.assume, s.trace)

    def captured_writes(self, g):
        r = getattr(g, '_cw', None)
        if r is None:
            r = set()
            for e in g.ex:
                x = None
                if e[0] == 'b' and e[3].endswith('=') and e[3] not in ('==', '!=', '<=', '>='):
                    x = e[4]
                elif e[0] == 'u' and e[3].lstrip('p') in ('++', '--'):
                    x = e[4]
                elif e[0] == 'c' and e[4].endswith('operator=') and e[5] >= 0:
                    x = e[5]
                if x is not None and g.ex[x][0] == 'v' and g.vars[g.ex[x][3]][2] == 'c':
                    r.add(g.vars[g.ex[x][3]][4])
            g._cw = r
        return r

    def inline(self, fr, s, i, e, t, th, argx, args, line):
        g = self.F.fns[t]
        self.inlined.add(t)
        store = dict(s.store)
        depth = fr.depth + 1
        wb = []
        if e[0] == 'k':
            th = ('newobj', e[3])
        if th is None:
            th = fr.this
        byidx = {v[3]: (vi, v) for vi, v in enumerate(g.vars) if v[2] == 'p'}
        for j, a in enumerate(args):
            if j not in byidx:
                continue
            vi, v = byidx[j]
            pty = g.types[v[1]]
            store[v[4]] = a
            store.pop('&' + v[4], None)
            if mut_ref(pty):
                ae = fr.fn.ex[argx[j]]
                tgt = ae if ae[0] == 'v' else None
                if tgt is not None:
                    vv = fr.fn.vars[tgt[3]]
                    base = pty.rstrip('&').strip()
                    if pty.endswith('&') and (is_scalar(base) or self.smallval(base)) and vv[2] in ('l', 'p', 'c'):
                        wb.append((v[4], vv[4]))
        fr2 = Frame(g, th, depth, fr.stack + (t,))
        pre = '#%d:' % depth
        store = {k: v for k, v in store.items() if not (isinstance(k, str) and k.startswith(pre))}
        mk = (self.rule.final, t, th, s.facts, frozenset((k, v) for k, v in store.items() if not (isinstance(k, str) and k[0] == '#')), s.assume, depth)
        got = self.memo.get(mk)
        if got is None:
            st = State(s.facts, store, s.assume, None)
            got = self.simulate(fr2, st)
            self.memo[mk] = got
        out = []
        callerkeys = s.store
        for kind, ret, x, ln in got:
            ns = {}
            for k, v in x.store.items():
                if k in callerkeys or not isinstance(k, str):
                    ns[k] = v
                elif k[0] in '#?$' and False:
                    pass
            for k in s.store:
                if isinstance(k, str) and k[0] in '#?$':
                    ns[k] = s.store[k]
            for pk, ck in wb:
                if pk in x.store:
                    ns[ck] = x.store[pk]
            tr = self.chain(x.trace, s.trace)
            if kind == 'exc':
                out.append((State(x.facts, ns, x.assume, tr), ('exc', ret, line)))
            else:
                if ret != ('none',) and e[0] == 'c':
                    ns['#%d:%d' % (fr.depth, i)] = ret
                out.append((State(x.facts, ns, x.assume, tr), None))
        return self.dedupe_pairs(out)

    def chain(self, a, b):
        if a is None:
            return b
        # keep only the tail of the callee's trace
        items = []
        t = a
        while t is not None and len(items) < 12:
            items.append(t[0])
            t = t[1]
        r = b
        for x in reversed(items):
            r = (x, r)
        return r

    def dedupe_pairs(self, out):
        res = {}
        for s, r in out:
            k = (s.facts, self.proj(s), r, tuple(sorted((k, repr(v)) for k, v in s.store.items() if isinstance(k, str) and k[0] == '#')))
            if k not in res:
                res[k] = (s, r)
        return list(res.values())

    def lambda_arg(self, fr, s, i, e, fid, qn, obj, argx, args, lams, line):
        """a function outside the repository (or not followed) calls the lambda zero or more times"""
        name = qn.rsplit('::', 1)[-1]
        outs = [(s, None, None)]   # state, exc, last value
        s0 = self.havoc(fr, s, i, e, fid, qn, obj, argx, args)
        seen = {}
        work = [(s0, 0)]
        finals = []
        visits = name in VISITS
        algo = name in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not')
        while work:
            x, n = work.pop()
            k = (x.facts, self.proj(x))
            if k in seen:
                continue
            seen[k] = x
            xe = x
            if visits and args:
                for f in self.rulebranch(fr, x, ('more', self.containerof(args[0])), 0, line):
                    xe = x.with_facts(f)
            if not algo:
                finals.append((xe, None, None))
            elif name == 'any_of':
                finals.append((xe, None, FALSE))
            elif name in ('all_of', 'none_of'):
                finals.append((xe, None, TRUE))
            else:
                finals.append((xe, None, ('call', 'std::end', self.containerof(args[0]) if args else None, ())))
            for j, a in lams:
                g = self.F.fns[a[1]]
                if visits and args:
                    for f in self.rulebranch(fr, x, ('more', self.containerof(args[0])), 1, line):
                        x = x.with_facts(f)
                elem = ('elem', self.containerof(args[0]) if args else obj)
                pe = ['c', 0, line, a[1], a[1], -1, [], 0, -1]
                store = dict(x.store)
                acc = name == 'accumulate'
                for vi, v in enumerate(g.vars):
                    if v[2] == 'p':
                        store[v[4]] = ('var', 'acc') if acc else elem
                        acc = False
                x2 = State(x.facts, store, x.assume, x.trace)
                for y, r in self.inline(fr, x2, -2, pe, a[1], a[2], [], (), line):
                    tv = y.store.get('#%d:%d' % (fr.depth, -2))
                    ns = {k: v for k, v in y.store.items() if k != '#%d:%d' % (fr.depth, -2)}
                    y = State(y.facts, ns, y.assume, y.trace)
                    if r is not None:
                        finals.append((y, r, None))
                        continue
                    if name == 'accumulate' and tv is not None:
                        for z in self.fire(y, Ev('write', g, line, fr.stack, lhs=('var', 'acc'), op='=', rhs=tv)):
                            if n < 8:
                                work.append((z, n + 1))
                        continue
                    if algo:
                        tv = tv if tv is not None else ('unk',)
                        for pol in (1, 0):
                            for z in self.assume(fr, y, tv, pol, line):
                                stop = (pol == 1) if name in ('any_of', 'none_of', 'find_if') else (pol == 0)
                                if stop:
                                    if name == 'any_of':
                                        finals.append((z, None, TRUE))
                                    elif name in ('all_of', 'none_of'):
                                        finals.append((z, None, FALSE))
                                    else:
                                        finals.append((z, None, ('found', self.containerof(args[0]) if args else None)))
                                elif n < 8:
                                    work.append((z, n + 1))
                    elif n < 8:
                        work.append((y, n + 1))
        out = []
        for x, r, v in finals:
            if v is not None:
                x = State(x.facts, dict(x.store, **{'#%d:%d' % (fr.depth, i): v}), x.assume, x.trace)
            out.append((x, r))
        return self.dedupe_pairs(out)


VISITS = ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'transform', 'accumulate', 'remove_if', 'copy_if', 'partition')


def first_targ(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif ch == ',' and d == 0:
            return s[:i].strip()
    return s


def width(t):
    t = t.replace('const ', '').strip()
    return {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
            'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64}.get(t, 64)


def isfloat(t):
    return t.replace('const ', '').strip() in ('float', 'double', 'long double')
