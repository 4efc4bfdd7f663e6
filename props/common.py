"""helpers shared by the property modules"""
from sa.rules import *
from sa.engine import Rule, TRUE, FALSE, NULL, Ev
from sa.facts import AnalysisBroken


def fkeys(*names):
    """functions that mention one of the resolved names"""
    return set(names)


def isf(t, *names):
    """the term is one of these fields (through copies, casts, references)"""
    t = strip(t)
    return t[0] == 'fld' and (t[2] in names or last(t[2]) in names)


def isc(t, *names):
    t = strip(t)
    return t[0] == 'call' and (t[1] in names or last(t[1]) in names)


def noff(t):
    """no constant is added to or subtracted from the value"""
    return not lin(t).get(1)


def plain_size(t, field):
    t = stripc(t)
    return (t[0] == 'call' and last(t[1]) == 'size' and t[2] is not None and isf(t[2], field)) or (t[0] == 'size' and isf(t[1], field))


def both(a, b):
    return lambda x: a(x) and b(x)


def subterms(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out.append(x)
            st += [y for y in x if isinstance(y, tuple)]
    return out


def anyt(t):
    return True


def is_empty(a, p, pred):
    a = stripc(a)
    return p == 1 and (a[0] == 'empty' and pred(a[1]) or a[0] == 'call' and last(a[1]) == 'empty' and a[2] is not None and pred(a[2])) or eq(a, p, lambda t: const_of(t) == 0, lambda t: (t[0] == 'size' or t[0] == 'call' and last(t[1]) == 'size') and pred(t))


def absent(a, p, pred):
    """a key is not in the container"""
    a = stripc(a)
    return p == 0 and a[0] == 'in' and pred(a[1]) or eq(a, p, lambda t: pred(t) and isc(t, 'find'), lambda t: isc(t, 'end') and pred(t)) or truth_of(a, p, 'count') == 0 and pred(a)


def bgates(c):
    """gate literals about one block; every entry is a branch predicate (atom, pol, ev)"""
    m = c.m
    bf = lambda n: (lambda t: isf(t, n))
    g = {}
    g['version'] = lambda a, p, ev: eq(a, p, bf('majorVersion'), lambda t: m.call(t, 'get_block_major_version_for_height', 'getBlockMajorVersionForHeight') and all(noff(x) for x in (strip(t)[3] if strip(t)[0] == 'call' else ())))
    g['prev'] = lambda a, p, ev: eq(a, p, bf('previousBlockHash'), lambda t: m.call(t, 'getTailId'))
    g['future'] = lambda a, p, ev: le(a, p, bf('timestamp'), lambda t: m.call(t, 'get_adjusted_time') and m.call(t, 'blockFutureTimeLimit'))
    g['median'] = lambda a, p, ev: le(a, p, lambda t: m.call(t, 'medianValue'), bf('timestamp')) or lt(a, p, lambda t: True, lambda t: isc(t, 'timestampCheckWindow'))
    g['difficulty'] = lambda a, p, ev: difficulty_nz(a, p)
    g['pow'] = lambda a, p, ev: truth_of(a, p, 'check_hash') == 1 and pow_args(m, a)
    g['oneinput'] = lambda a, p, ev: eq(a, p, lambda t: t == ('int', 1), lambda t: m.fld(t, 'inputs') and m.fld(t, 'baseTransaction'))
    g['onesig'] = lambda a, p, ev: le(a, p, lambda t: m.fld(t, 'signatures') and m.fld(t, 'baseTransaction'), lambda t: t == ('int', 1)) or lt(a, p, lambda t: m.fld(t, 'signatures') and m.fld(t, 'baseTransaction'), lambda t: t in (('int', 2), ('int', 1))) or is_empty(a, p, lambda t: m.fld(t, 'signatures'))
    g['basetype'] = lambda a, p, ev: (type_test(a, p, 'BaseInput') or (None, 0))[1] == 1 and m.fld(type_test(a, p, 'BaseInput')[0], 'baseTransaction')
    g['height'] = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'blockIndex') and m.fld(t, 'baseTransaction'), lambda t: noff(t) or m.fld(t, 'height') or m.call(t, 'getBlockHeight'))
    g['unlock'] = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'unlockTime') and m.fld(t, 'baseTransaction'), lambda t: m.call(t, 'minedMoneyUnlockWindow'))
    g['outsvalid'] = lambda a, p, ev: truth_of(a, p, 'check_outs_valid') == 1 and m.fld(a, 'baseTransaction')
    g['outsterm'] = lambda a, p, ev: truth_of(a, p, 'check_tx_outputs') == 1 and m.fld(a, 'baseTransaction')
    g['outsoverflow'] = lambda a, p, ev: truth_of(a, p, 'check_outs_overflow') == 1 and m.fld(a, 'baseTransaction')
    g['size'] = lambda a, p, ev: le(a, p, lambda t: not isc(t, 'maxBlockCumulativeSize'), lambda t: isc(t, 'maxBlockCumulativeSize'))
    return g


MINER = ('oneinput', 'onesig', 'basetype', 'height', 'unlock', 'outsvalid', 'outsterm', 'outsoverflow')
GTEXT = {
    'known': 'the block is not on the main chain yet',
    'version': 'its major version is the one the upgrade schedule demands at its height',
    'prev': 'its previous-block hash is the chain tail',
    'future': 'its timestamp is not beyond the adjusted time plus the future limit',
    'median': 'its timestamp is not below the median of the last window of timestamps (or there are fewer blocks than the window)',
    'difficulty': 'the difficulty it has to meet is not zero',
    'pow': 'its proof of work meets the difficulty of the next block (or its height lies in the checkpoint zone)',
    'checkpoint': 'inside the checkpoint zone its hash equals the checkpoint at its height when there is one',
    'oneinput': 'its coinbase has exactly one input',
    'onesig': 'its coinbase has at most one signature',
    'basetype': 'the coinbase input is a base input',
    'height': 'the coinbase input names the height of the block',
    'unlock': 'the coinbase unlock time is the height plus the mined-money window',
    'outsvalid': 'the coinbase outputs are valid',
    'outsterm': 'the coinbase outputs obey the deposit rules',
    'outsoverflow': 'the coinbase outputs do not overflow',
    'size': 'its cumulative size is within the limit of its height',
    'mm': 'its coinbase carries no merge-mining tag from upgrade 6 on',
}


def difficulty_nz(a, p):
    """the outcome says that a difficulty is not zero"""
    D = ('getDifficultyForNextBlock', 'get_next_difficulty_for_alternative_chain')
    if p == 1 and stripc(a)[0] == 'call' and isc(stripc(a), *D):
        return True
    if p == 1 and a[0] == 'cmp' and a[1] in ('!=', '<'):
        x, y = stripc(a[2]), stripc(a[3])
        if const_of(x) == 0 and isc(y, *D):
            return True
        return a[1] == '!=' and const_of(y) == 0 and isc(x, *D)
    return False


def pow_args(m, a):
    t = strip(a)
    if t[0] != 'call' or len(t[3]) < 2:
        return True
    D = ('getDifficultyForNextBlock', 'get_next_difficulty_for_alternative_chain')
    return isc(t[3][1], *D) or strip(t[3][1])[0] == 'phi' and m.call(t[3][1], *D)


class Calls(Rule):
    """collects the call events that satisfy a predicate"""
    init = 0

    def __init__(self, E, keys, stop, pred, max_depth=4):
        self.E, self.keys, self.no_inline, self.pred, self.max_depth = E, keys, stop, pred, max_depth
        self.reset()

    def reset(self):
        self.hits, self._seen = [], set()

    def event(self, f, ev, st):
        if ev.kind in ('call', 'ctor') and self.pred(ev):
            k = (ev.fn.id, ev.line, ev.term)
            if k not in self._seen:
                self._seen.add(k)
                self.hits.append(ev)
        return f


def leq(a, p, A, B):
    """A <= B follows from the outcome (A < B included)"""
    return le(a, p, A, B) or lt(a, p, A, B)


def not_type(a, p, *T):
    """the outcome says that a variant does not hold one of these types"""
    for t in T:
        r = type_test(a, p, t)
        if r and r[1] == 0:
            return True
    return False


def is_type(a, p, *T):
    for t in T:
        r = type_test(a, p, t)
        if r and r[1] == 1:
            return True
    return False


def callees(F, fn, limit=4000):
    """ids of the functions reachable from fn over direct calls"""
    seen, work = {fn.id}, [fn.id]
    while work and len(seen) < limit:
        x = work.pop()
        for y in F.fns[x].calls:
            if y in F.fns and y not in seen:
                seen.add(y)
                work.append(y)
    return seen


class Follow(Rule):
    """after the trigger event the follow-up happens before the next trigger and before the function returns"""

    def __init__(self, E, keys, trig, done=None, done_br=None, trig_br=None, exits=None, no_inline=(), max_depth=6, exc='explicit', again=False):
        self.again = again
        self.E, self.keys, self._t, self._d, self._db, self._tb = E, keys, trig, done, done_br, trig_br
        self._x = exits or (lambda k, r: k == 'ret')
        self.no_inline, self.max_depth, self.exc = no_inline, max_depth, exc
        self.init = None
        self.reset()

    def reset(self):
        self.trigs, self.bad = set(), {}

    def fail(self, f, ev, st):
        if self.final:
            self.bad.setdefault(f, (ev, self.E.path(st) if st is not None else []))

    def event(self, f, ev, st):
        if self._d and f is not None and self._d(ev):
            return 0
        if self._t and self._t(ev):
            if f and not self.again:
                self.fail(f, ev, st)
            self.trigs.add((ev.fn.id, ev.line))
            return (ev.fn.id, ev.line)
        return f if f is not None else 0

    def branch(self, f, a, p, ev):
        if f and self._db and self._db(a, p, ev):
            return 0
        if self._tb and self._tb(a, p, ev):
            if f and not self.again:
                self.fail(f, ev, None)
            self.trigs.add((ev.fn.id, ev.line))
            return (ev.fn.id, ev.line)
        return f if f is not None else 0

    def leave(self, f, kind, ret, ev, st):
        if f and self._x(kind, ret):
            self.fail(f, ev, st)


def follow(c, rid, what, fn, keys, trig, done=None, min_trigs=1, **kw):
    r = Follow(c.E, keys, trig, done, **kw)
    c.run(r, fn)
    if len(r.trigs) < min_trigs:
        c.bad(rid, what + ' (the step before it is gone)', '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))
    for fid, line in sorted(r.trigs):
        f = c.F.fns[fid]
        if (fid, line) in r.bad:
            ev, path = r.bad[(fid, line)]
            c.bad(rid, what, '%s in %s (entry %s)' % (f.loc(line), f.qn, fn.qn), path, construct='%s in %s' % (what, fn.qn))
        else:
            c.ok(rid, what, '%s in %s' % (f.loc(line), f.qn))
    return r


def flag(a, p, pred):
    """truth value (1, 0) that the outcome implies for a bool, number or pointer satisfying pred; None otherwise"""
    x = strip(a)
    if x[0] not in ('cmp', 'logic', 'not', 'cond') and pred(x):
        return p
    if a[0] == 'cmp' and p == 1 and a[1] in ('==', '!='):
        for u, v in ((a[2], a[3]), (a[3], a[2])):
            k = 0 if v == FALSE or v == NULL or const_of(v) == 0 else 1 if v == TRUE else None
            if k is not None and pred(strip(u)):
                return k if a[1] == '==' else 1 - k
    if a[0] == 'cmp' and p == 1 and a[1] == '<' and const_of(a[2]) == 0 and pred(strip(a[3])):
        return 1
    if a[0] == 'cmp' and p == 1 and a[1] == '<=' and const_of(a[2]) == 1 and pred(strip(a[3])):
        return 1
    if a[0] == 'cmp' and p == 1 and pred(strip(a[2])) and (a[1] == '<=' and const_of(a[3]) == 0 or a[1] == '<' and const_of(a[3]) == 1):
        return 0
    return None


def enumv(t, name):
    t = strip(t)
    return t[0] in ('enum', 'glob') and last(str(t[1])) == name


def is_enum(a, p, pred, *names):
    """the outcome says that the value is one of these enumerators"""
    return any(eq(a, p, pred, lambda t, n=n: enumv(t, n)) for n in names)


def not_enum(a, p, pred, name):
    return ne(a, p, pred, lambda t: enumv(t, name))


def roots(F, qn):
    """a function and the lambdas written inside it"""
    out = []
    for f in F.q(qn):
        out += [f] + [g for i, g in F.fns.items() if i.startswith(f.id + '::$lambda')]
    return out


def writes(field, val=None):
    return lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == field and (val is None or val(ev.rhs))


def calls(*names, arg=None, obj=None):
    return lambda ev: ev.kind == 'call' and (ev.qn in names or ev.name in names) and (arg is None or any(arg(a) for a in ev.args)) and (obj is None or ev.obj is not None and obj(ev.obj))


def only_called_from(F, f, names):
    cs = [x for x in F.callers.get(f.id, ()) if x in F.fns]
    return bool(cs) and all(F.fns[x].qn in names or x != f.id and only_called_from(F, F.fns[x], names) for x in cs)
