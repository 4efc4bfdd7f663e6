"""The wallet's outputs: the sets of unconfirmed, available and spent outputs."""
from .common import *
from .c17 import Hits
from .c18 import lams

NS = 'cn::TransfersContainer::'
U, A, S, T = 'm_unconfirmedTransfers', 'm_availableTransfers', 'm_spentTransfers', 'm_transactions'
SETS = (U, A, S)

META = dict(
    title='Each wallet output is unconfirmed, available or spent, and counted once',
    statement='Every output of a wallet is in exactly one of the sets of unconfirmed, available and spent outputs: confirming, spending, deleting and detaching move it between them and never copy, drop or duplicate it, and every available output, and no other, has its unlock job. An input spends only an available, unspent output with its amount; a transaction is added once, in height order, confirmed only once, and deleted with everything it added or spent. Balances and lists count exactly the visible outputs whose type and state (locked, soft-locked, unlocked) was asked for, and each lookup reports the output it found and its state.',
    over=['inputs', 'histories'],
    qtext='every transaction and every sequence of additions, confirmations, deletions and detaches',
    why='An output lost or counted twice shows a wrong balance or spends money twice; tests follow a few histories.',
    files=['src/Transfers/TransfersContainer.cpp', 'src/Transfers/TransfersContainer.h'],
    mechanism=[('adding and spending', 'TransfersContainer::addTransaction, addTransactionOutputs, addTransactionInputs, copyToSpent'), ('confirming', 'TransfersContainer::markTransactionConfirmed'), ('undoing', 'TransfersContainer::deleteTransactionTransfers, detach'), ('counting', 'TransfersContainer::balance, getOutputs, isIncluded, isSpendTimeUnlocked')],
    state=[('unconfirmed', 'outputs of pool transactions', 'TransfersContainer::m_unconfirmedTransfers'), ('available', 'unspent outputs of the chain', 'TransfersContainer::m_availableTransfers'), ('spent', 'outputs spent by a known transaction', 'TransfersContainer::m_spentTransfers'), ('unlock jobs', 'the heights at which available outputs unlock', 'TransfersContainer::m_transfersUnlockJobs')],
    observe=['balance', 'listed outputs', 'state of an output'],
    technique='pairing (typestate) and gate analysis over the CFG with the helpers inlined, and per-element walks',
    level_note='Decides that moves are complete and conditional on the right tests on every path; the arithmetic of unlock heights and the multi_index library are trusted. Paths that end in an exception are not followed.',
)
MIN = 30
EXPLAIN = 'Every CFG path of the container operations; obligations are one per moved output, per guarding test, per element walk and per summed or listed output.'


def owner(t):
    """the field a chain of .get()/.equal_range()/.first starts from"""
    t = strip(t)
    while True:
        if t[0] == 'fld' and t[1] is not None and last(t[2]) in ('first', 'second'):
            t = strip(t[1])
        elif t[0] == 'call' and last(t[1]) in ('get', 'equal_range', 'find', 'begin', 'end', 'lower_bound', 'upper_bound', 'inserter') and (t[2] is not None or t[3]):
            t = strip(t[2] if t[2] is not None else t[3][0])
        else:
            return last(t[2]) if t[0] == 'fld' else None


def ins(*sets):
    return lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and ev.obj is not None and owner(ev.obj) in sets


def rem(*sets):
    return lambda ev: ev.kind == 'call' and ev.name in ('erase', 'clear') and ev.obj is not None and owner(ev.obj) in sets


class Pair(Rule):
    """the two steps alternate in some order and are even at the end"""
    init = 0

    def __init__(self, E, keys, a, b, no_inline=(), any_a=True):
        self.E, self.keys, self._a, self._b, self.no_inline, self.any_a = E, keys, a, b, no_inline, any_a
        self.max_depth = 6
        self.reset()

    def reset(self):
        self.sites, self.bad = set(), {}

    def fail(self, ev, st):
        if self.final:
            self.bad.setdefault((ev.fn.id, ev.line), (ev, self.E.path(st) if st is not None else []))

    def event(self, f, ev, st):
        for pred, d in ((self._a, 1), (self._b, -1)):
            if pred(ev):
                self.sites.add((ev.fn.id, ev.line))
                n = (f if isinstance(f, int) else f[0]) + d
                if abs(n) > 1:
                    self.fail(ev, st)
                    n = d
                return (n, ev.fn.id, ev.line) if n else 0
        return f

    def leave(self, f, kind, ret, ev, st):
        if kind == 'ret' and f and self.final:
            self.bad.setdefault((f[1], f[2]), (ev, self.E.path(st) if st is not None else []))


def pair(c, rid, what, fn, keys, a, b, no_inline=(), min_sites=2):
    r = Pair(c.E, keys, a, b, no_inline)
    c.run(r, fn)
    if len(r.sites) < min_sites:
        c.bad(rid, what + ' (a step of it is gone)', '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))
    for fid, line in sorted(r.sites | set(r.bad)):
        f = c.F.fns[fid]
        if (fid, line) in r.bad:
            c.bad(rid, what, '%s in %s (entry %s)' % (f.loc(line), f.qn, fn.qn), r.bad[(fid, line)][1], construct='%s in %s' % (what, fn.qn))
        else:
            c.ok(rid, what, '%s in %s' % (f.loc(line), f.qn))


def parts(t):
    """summands of a sum"""
    t = strip(t)
    if t[0] == 'op' and t[1] == '+':
        return parts(t[2]) + parts(t[3])
    return [t]


def summands(t, *preds):
    """the sum has exactly these summands"""
    ps = parts(t)
    if len(ps) != len(preds):
        return False
    for x in preds:
        hit = [i for i, y in enumerate(ps) if x(y)]
        if not hit:
            return False
        del ps[hit[0]]
    return True


def leaves(t, out, pol=1):
    """the comparisons in a boolean term, with the polarity they occur in"""
    t = strip(t)
    if t[0] == 'not':
        leaves(t[1], out, 1 - pol)
    elif t[0] == 'cmp':
        out.append((t, pol))
    elif t[0] in ('logic', 'cond'):
        for x in t[1:]:
            if isinstance(x, tuple):
                leaves(x, out, pol)


class Values(Rule):
    """comparisons that are written, returned or branched on"""
    init = 0

    def __init__(self, E, keys=None):
        self.E, self.keys, self.out = E, keys, {}

    def put(self, t, value, line, fn):
        o = []
        leaves(t, o)
        for x in o:
            self.out.setdefault((x[0], x[1], value), (line, fn))

    def event(self, f, ev, st):
        if self.final and ev.kind in ('write', 'decl') and ev.rhs is not None:
            self.put(ev.rhs, True, ev.line, ev.fn)
        return f

    def branch(self, f, a, p, ev):
        if self.final and p == 1:
            self.put(a, False, ev.line, ev.fn)
        return f

    def leave(self, f, kind, ret, ev, st):
        if self.final and ret is not None and kind == 'ret':
            self.put(ret, True, ev.line, ev.fn)


class Table(Rule):
    """the value returned on each path, as a function of some literals"""
    init = frozenset()

    def __init__(self, E, lit):
        self.E, self.keys, self.lit, self.rets = E, None, lit, {}

    def branch(self, f, a, p, ev):
        x = self.lit(a)
        return f | {(x[0], x[1] == p)} if x else f

    def leave(self, f, kind, ret, ev, st):
        if self.final and kind == 'ret' and ret is not None:
            self.rets.setdefault((f, ret), ev.line)

    def value(self, t, env):
        """True, False or None (not known) for a term under an assignment"""
        t = strip(t)
        if t in (TRUE, FALSE):
            return t == TRUE
        k = const_of(t)
        if isinstance(k, int):
            return k != 0
        if t[0] == 'not':
            v = self.value(t[1], env)
            return None if v is None else not v
        if t[0] == 'logic':
            vs = [self.value(x, env) for x in t[2:]]
            if t[1] == '&&':
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if t[0] == 'cond':
            v = self.value(t[1], env)
            return None if v is None else self.value(t[2] if v else t[3], env)
        x = self.lit(t)
        return None if x is None or x[0] not in env else env[x[0]] == bool(x[1])


class Vis(Rule):
    """after a key output moved, the visibility of the outputs with its key image is updated"""
    init = (0, 0)

    def __init__(self, E, keys, move, no_inline):
        self.E, self.keys, self.move, self.no_inline = E, keys, move, no_inline
        self.max_depth = 6
        self.reset()

    def reset(self):
        self.sites, self.bad = set(), {}

    def event(self, f, ev, st):
        if ev.kind == 'call' and ev.name == 'updateTransfersVisibility':
            return (0, f[1])
        if self.move(ev):
            self.sites.add((ev.fn.id, ev.line))
            return ((ev.fn.id, ev.line) if not f[1] else 0, f[1])
        if ev.kind == 'decl' and 'InputType' in str(ev.type):
            return (f[0], 0)
        return f

    def branch(self, f, a, p, ev):
        key = lambda t: isf(t, 'type') or isc(t, 'getInputType', 'getOutputType')
        if is_enum(a, p, key, 'Key'):
            return (f[0], 0)
        if not_enum(a, p, key, 'Key') or is_enum(a, p, key, 'Multisignature'):
            return (0, 1)
        return f

    def leave(self, f, kind, ret, ev, st):
        if kind == 'ret' and f[0] and self.final:
            self.bad.setdefault(f[0], self.E.path(st) if st is not None else [])


def ms_desc(t):
    return 'SpentOutputDescriptor' in str(t)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'an output gets its unlock job when it becomes available, and loses it when it stops being so')
    c.rule('R2', 'spending, confirming and unspending move an output between the sets, and a transaction is kept as long as its outputs')
    c.rule('R3', 'after each move the visibility of the outputs with the same key image is updated')
    c.rule('R4', 'an input spends only an available, unspent output of its amount; no multisignature output is added twice')
    c.rule('R5', 'only an unconfirmed transaction is confirmed, with the place and the indexes of the block')
    c.rule('R6', 'transactions are added once and in order; deleting and detaching take exactly what they should')
    c.rule('R7', 'balances and lists hold exactly the visible outputs of the requested type and state')
    c.rule('R8', 'a lookup reports the output that it found, and its state')
    f = {n: F.q1(NS + n) for n in ('markTransactionConfirmed', 'detach', 'deleteUnconfirmedTransaction', 'getTransfer', 'balance', 'getOutputs', 'isIncluded', 'isSpendTimeUnlocked', 'doAdvanceHeight', 'advanceHeight', 'getTransactionInformation', 'updateTransfersVisibility')
         if n not in ('isIncluded',)}
    add = [x for x in F.q(NS + 'addTransaction') if NS + 'addTransactionInputs' in x.names or NS + 'm_currentHeight' in x.names]
    if len(add) != 1:
        c.broken('TransfersContainer::addTransaction not found')
    f['addTransaction'] = add[0]
    K = {NS + x for x in SETS + (T, 'm_transfersUnlockJobs', 'm_currentHeight', 'addUnlockJob', 'deleteUnlockJob', 'updateTransfersVisibility', 'copyToSpent', 'deleteTransactionTransfers')}
    NI = tuple(NS + x for x in ('addUnlockJob', 'deleteUnlockJob', 'updateTransfersVisibility', 'getLockingTransfers', 'getUnlockingTransfers'))
    job, unjob = calls(NS + 'addUnlockJob'), calls(NS + 'deleteUnlockJob')
    UNC = lambda t: m.glob(t, 'WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT')
    UIDX = lambda t: m.glob(t, 'UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX')
    entries = ('addTransaction', 'markTransactionConfirmed', 'deleteUnconfirmedTransaction', 'detach')
    # R1, R2
    for n in ('addTransaction', 'markTransactionConfirmed', 'deleteUnconfirmedTransaction', 'detach'):
        pair(c, 'R1', 'an output that becomes available gets its unlock job', f[n], K, job, ins(A), NI)
    for n in ('addTransaction', 'deleteUnconfirmedTransaction', 'detach'):
        pair(c, 'R1', 'an output that stops being available loses its unlock job', f[n], K, unjob, rem(A), NI)
    pair(c, 'R2', 'a spent output moves from the available to the spent ones', f['addTransaction'], K, ins(S), rem(A), NI)
    pair(c, 'R2', 'a confirmed output moves from the unconfirmed to the available ones', f['markTransactionConfirmed'], K, rem(U), ins(A), NI)
    for n in ('deleteUnconfirmedTransaction', 'detach'):
        pair(c, 'R2', 'an output that is no longer spent moves back to the available ones', f[n], K, rem(S), ins(A), NI)
        pair(c, 'R2', 'a deleted transaction goes with its outputs', f[n], K, calls(NS + 'deleteTransactionTransfers'), rem(T), NI + (NS + 'deleteTransactionTransfers',))
    dt = F.q1(NS + 'deleteTransactionTransfers')
    more = lambda C: (lambda a, p, ev: ne(a, p, lambda t: isf(t, 'second') and owner(t) == C or isc(t, 'end') and owner(t) == C, lambda t: not isc(t, 'find')))
    done = lambda C: (lambda a, p, ev: eq(a, p, lambda t: isf(t, 'second') and owner(t) == C or isc(t, 'end') and owner(t) == C, lambda t: not isc(t, 'find')))
    for C, what in ((S, 'the outputs it spent'), (U, 'its unconfirmed outputs'), (A, 'its available outputs')):
        follow(c, 'R2', 'with a deleted transaction %s go' % what, dt, K, None, done=rem(C), trig_br=more(C), no_inline=NI, exits=lambda k, r: k == 'ret')
        c.gates('R2', dt, K, {'all': 'all of %s were visited' % what}, br={'all': done(C)}, ev={'all': lambda ev, C=C: rem(C)(ev) and ev.args and not m.call(ev.args[0], 'equal_range')}, exits=lambda k, r: {'all'} if k == 'ret' else None, no_inline=NI, min_sites=1)
    for g in (dt, f['markTransactionConfirmed']):
        hh = Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'equal_range' and owner(ev.obj) in SETS, no_inline=NI)
        c.run(hh, g)
        for ev in hh.hits:
            t = ev.args[0]
            c.check(m.param(t) or ms_desc(t), 'R2', 'the outputs of the transaction are taken', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='range in ' + g.qn)
    # R3
    move = lambda ev: ins(*SETS)(ev) or rem(*SETS)(ev)
    for n in entries:
        r = Vis(E, K, move, NI)
        c.run(r, f[n])
        c.check(bool(r.sites), 'R3', 'outputs are moved', '%s in %s' % (f[n].loc(), f[n].qn), construct='moves in ' + f[n].qn)
        for fid, line in sorted(r.sites):
            g = F.fns[fid]
            if (fid, line) in r.bad:
                c.bad('R3', 'the visibility is updated after the move', '%s in %s (entry %s)' % (g.loc(line), g.qn, f[n].qn), r.bad[(fid, line)], construct='visibility in %s' % f[n].qn)
            else:
                c.ok('R3', 'the visibility is updated after the move', '%s in %s' % (g.loc(line), g.qn))
    g = f['updateTransfersVisibility']
    shows = [n for n in g.names if last(n) == 'updateVisibility']
    if shows:
        sets_ = lambda ev, C: ev.kind == 'call' and ev.name == 'updateVisibility' and (owner(ev.args[0]) == C or owner(ev.args[1]) == C)
        cnt = lambda C: (lambda t: (isc(t, 'distance') or isc(t, 'count')) and m.fld(t, C))
        zero = lambda t: const_of(t) == 0
        none = lambda C: (lambda a, p, ev: leq(a, p, cnt(C), zero) or eq(a, p, cnt(C), zero) or flag(a, p, cnt(C)) == 0)
        some = lambda C: (lambda a, p, ev: lt(a, p, zero, cnt(C)) or ne(a, p, cnt(C), zero) or flag(a, p, cnt(C)) == 1 or leq(a, p, lambda t: const_of(t) == 1, cnt(C)))
        single = lambda t: strip(t)[0] == 'cmp' and strip(t)[1] == '==' and any(cnt(U)(x) and const_of(y) == 1 for x, y in ((strip(t)[2], strip(t)[3]), (strip(t)[3], strip(t)[2])))
        KS = set(shows) | {NS + x for x in SETS}
        val = lambda ev: ev.args[2] if len(ev.args) > 2 else None
        one = lambda ev: ev.kind == 'call' and ev.name in ('replace', 'modify') and owner(ev.obj) == A and ('minElement' in str(ev.args) or 'min_element' in str(ev.args))
        shown = lambda ev: writes('visible')(ev) and ev.rhs == TRUE
        c.gates('R3', g, KS, {'s': 'the spent output is visible', 'a': 'the available outputs are hidden', 'u': 'the unconfirmed outputs are updated', 'one': 'the earliest available output is visible when none is spent'},
                br={'s': none(S), 'a': none(A), 'one': lambda a, p, ev: some(S)(a, p, ev) or none(A)(a, p, ev)}, ev={'s': lambda ev: sets_(ev, S) and val(ev) == TRUE, 'a': lambda ev: sets_(ev, A) and val(ev) == FALSE, 'u': lambda ev: sets_(ev, U), 'one': one},
                exits=lambda k, r: {'s', 'a', 'u', 'one'} if k == 'ret' else None, no_inline=shows, min_sites=1)
        c.gates('R3', g, KS, {'ns': 'no output is spent', 'na': 'no output is available', 'set': 'it was made visible', 'hid': 'the others were hidden'}, br={'ns': none(S), 'na': none(A)}, ev={'set': shown, 'hid': lambda ev: sets_(ev, A) and val(ev) == FALSE}, kills={'set': lambda ev: sets_(ev, A)},
                targets=[('earliest available output shown', one, {'ns', 'set', 'hid'}), ('unconfirmed output shown', lambda ev: sets_(ev, U) and val(ev) != FALSE, {'ns', 'na'})], no_inline=shows, min_sites=2)
        hh = Hits(E, KS, lambda ev: ev.kind == 'call' and ev.name == 'updateVisibility', no_inline=shows)
        c.run(hh, g)
        for ev in hh.hits:
            ok = sets_(ev, S) and val(ev) == TRUE or sets_(ev, A) and val(ev) == FALSE or sets_(ev, U) and (val(ev) == FALSE or single(val(ev)) or val(ev) == TRUE)
            c.check(ok, 'R3', 'spent outputs are shown, available ones hidden first, an unconfirmed one shown only when it is the only one', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='updateVisibility in ' + g.qn)
    # R4
    dist = lambda t, C: (isc(t, 'distance') or isc(t, 'count')) and m.fld(t, C)
    unspent = lambda C: (lambda a, p, ev: leq(a, p, lambda t: dist(t, C), lambda t: const_of(t) == 0) or eq(a, p, lambda t: dist(t, C), lambda t: const_of(t) == 0) or stripc(a)[0] == 'in' and p == 0 and m.fld(a, C)
                         or eq(a, p, lambda t: isc(t, 'find') and owner(t) == C, lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 0 and m.fld(a, C) or eq(a, p, lambda t: isf(t, 'first') and owner(t) == C, lambda t: isf(t, 'second')) or truth_of(a, p, 'empty') == 1 and m.fld(a, C))
    ms = lambda a, p, ev: is_enum(a, p, lambda t: isc(t, 'getInputType'), 'Multisignature') or not_enum(a, p, lambda t: isc(t, 'getInputType'), 'Key')
    avail = lambda t: m.call(t, 'findFirstByAmount') or m.call(t, 'find', 'find_if', 'findByAmount') or m.fld(t, A)
    head = lambda ev: ev.kind == 'call' and ev.name == 'getInputType'
    got = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find', 'findFirstByAmount') and (m.fld(t, A)), lambda t: isc(t, 'end') or isf(t, 'second')) or ne(a, p, lambda t: strip(t)[0] == 'phi', lambda t: owner(t) == A)
    c.gates('R4', f['addTransaction'], K | {'cn::ITransactionReader::getInputType'}, {'found': 'the output is available', 'unspent': 'its key image was not spent before'}, br={'found': got, 'unspent': lambda a, p, ev: unspent(S)(a, p, ev) or ms(a, p, ev)}, kills={'found': head, 'unspent': head},
            targets=[('output spent', ins(S), {'found', 'unspent'})], no_inline=NI, min_sites=1)
    hh = Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'findFirstByAmount', no_inline=NI)
    c.run(hh, f['addTransaction'])
    for ev in hh.hits:
        c.check(isf(ev.args[0], 'amount'), 'R4', 'the output with the amount of the input is taken', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='amount of the spent output')
    hh = Hits(E, K, lambda ev: ev.kind == 'ctor' and str(ev.term[1]).endswith('SpentOutputDescriptor') and len(ev.args) == 2, no_inline=NI)
    c.run(hh, f['addTransaction'])
    for ev in hh.hits:
        c.check(isf(ev.args[0], 'amount') and isf(ev.args[1], 'outputIndex', 'globalOutputIndex'), 'R4', 'a multisignature input names amount and index of its output', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='descriptor of the spent output')
    notms = lambda a, p, ev: not_enum(a, p, lambda t: isf(t, 'type'), 'Multisignature') or is_enum(a, p, lambda t: isf(t, 'type'), 'Key')
    for n in ('addTransaction', 'markTransactionConfirmed'):
        c.gates('R4', f[n], K, {'av': 'no available output has its descriptor', 'sp': 'no spent output has its descriptor'}, br={'av': lambda a, p, ev: unspent(A)(a, p, ev) or notms(a, p, ev), 'sp': lambda a, p, ev: unspent(S)(a, p, ev) or notms(a, p, ev)}, kills={'av': ins(A), 'sp': ins(A)},
                targets=[('output made available', ins(A), {'av', 'sp'})], no_inline=NI, min_sites=1)
    # R5
    g = f['markTransactionConfirmed']
    p0 = lambda t: m.param(t)
    w = lambda fld, src: (lambda ev: writes(fld)(ev) and src(ev.rhs))
    sets = {'height': w('blockHeight', lambda t: isf(t, 'height')), 'place': w('transactionIndex', lambda t: isf(t, 'transactionIndex')), 'index': w('globalOutputIndex', lambda t: m.fld(t, 'outputInTransaction') and noff(t))}
    inlam = lambda ev, x: ev.kind == 'call' and ev.name == 'modify' and owner(ev.obj) == T and any(last(n) == x for t in ev.args for i in lams(t) for n in F.fns[i].names)
    unconf = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'blockHeight') and m.fld(t, T), UNC)
    c.gates('R5', g, K, {'height': 'it has the height of the block', 'place': 'it has the place in the block', 'index': 'it has the index of the chain', 'range': 'the index of the output is given', 'conf': 'the block is one of the chain', 'was': 'the transaction is known and unconfirmed'},
            br={'range': lambda a, p, ev: lt(a, p, lambda t: isf(t, 'outputInTransaction'), lambda t: m.param(t) and noff(t)), 'conf': lambda a, p, ev: ne(a, p, lambda t: isf(t, 'height'), UNC), 'was': unconf}, ev=sets, kills={x: rem(U) for x in ('height', 'place', 'index', 'range')},
            targets=[('output made available', ins(A), {'height', 'place', 'index', 'range', 'conf', 'was'}), ('unlock job made', job, {'height'})], no_inline=NI, min_sites=2)
    c.gates('R5', g, K, {'conf': 'the block is one of the chain', 'was': 'the transaction is known and unconfirmed', 'height': 'it has the height of the block', 'time': 'it has the time of the block'}, br={'conf': lambda a, p, ev: ne(a, p, lambda t: isf(t, 'height'), UNC), 'was': unconf}, ev={'height': lambda ev: sets['height'](ev) or inlam(ev, 'blockHeight'), 'time': lambda ev: w('timestamp', lambda t: isf(t, 'timestamp'))(ev) or inlam(ev, 'timestamp')},
            targets=[('transaction updated', lambda ev: ev.kind == 'call' and ev.name == 'replace' and owner(ev.obj) == T, {'conf', 'was', 'height', 'time'}), ('transaction updated', lambda ev: ev.kind == 'call' and ev.name == 'modify' and owner(ev.obj) == T, {'conf', 'was'})],
            exits=lambda k, r: {'height', 'time'} if k == 'ret' and r != FALSE else None, no_inline=NI, min_sites=1)
    upd = lambda ev: ev.kind == 'call' and ev.name in ('replace', 'modify') and ev.obj is not None and owner(ev.obj) == T
    c.gates('R5', g, K, {'upd': 'the transaction is updated', 'outs': 'all its outputs are confirmed', 'ins': 'all outputs it spent are updated'}, br={'outs': done(U), 'ins': done(S)}, ev={'upd': upd}, exits=lambda k, r: {'upd', 'outs', 'ins'} if k == 'ret' and r != FALSE else None, no_inline=NI, min_sites=1)
    follow(c, 'R5', 'every output of the confirmed transaction is confirmed', g, K, None, done=rem(U), trig_br=more(U), no_inline=NI)
    follow(c, 'R5', 'every output it spent gets the block it was spent in', g, K, None, done=lambda ev: ev.kind == 'call' and ev.name in ('replace', 'modify') and owner(ev.obj) == S, trig_br=more(S), no_inline=NI)
    c.gates('R5', g, K, {'block': 'it names the block'}, ev={'block': lambda ev: writes('spendingBlock')(ev) and m.param(ev.rhs)}, targets=[('spent output updated', lambda ev: ev.kind == 'call' and ev.name in ('replace', 'modify') and owner(ev.obj) == S, {'block'})], no_inline=NI, min_sites=1)
    # R6
    g = f['addTransaction']
    new = lambda a, p, ev: unspent(T)(a, p, ev)
    order = lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_currentHeight'), lambda t: isf(t, 'height'))
    c.gates('R6', g, K, {'new': 'the transaction is not known yet', 'order': 'its block is not below the height reached'}, br={'new': new, 'order': order}, targets=[('output added', ins(U, A), {'new', 'order'}), ('output spent', ins(S), {'new', 'order'}), ('transaction added', ins(T), {'new'})], no_inline=NI, min_sites=4)
    noted = lambda ev: ins(T)(ev) or ev.kind == 'write' and ev.rhs == TRUE and ev.lhs[0] == 'var' and ev.lhs[2] == 'bool'
    follow(c, 'R6', 'it is noted that an output was added or spent', g, K, ins(U, A, S), done=noted, no_inline=NI, again=True)
    called = {'o': 'addTransactionOutputs', 'i': 'addTransactionInputs'}
    c.gates('R6', g, K, {x: 'the transaction is kept, or %s did nothing' % called[x] for x in 'oi'}, br={x: (lambda a, p, ev, x=x: flag(a, p, lambda t: m.call(t, called[x])) == 0) for x in 'oi'}, ev={x: ins(T) for x in 'oi'}, exits=lambda k, r: {'o', 'i'} if k == 'ret' else None,
            no_inline=NI + tuple(NS + x for x in called.values()), min_sites=1)
    both = lambda a, p, o: p == 1 and a[0] == 'cmp' and a[1] == o and any('globalOutputIndex' in str(x) and 'height' in str(y) for x, y in ((a[2], a[3]), (a[3], a[2])))
    isu = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'globalOutputIndex'), UIDX)
    isc_ = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'globalOutputIndex'), UIDX)
    bu = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'height'), UNC)
    bc = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'height'), UNC)
    c.gates('R6', g, K, {'isu': 'the output has no index of the chain', 'isc': 'the output has its index of the chain'}, br={'isu': isu, 'isc': isc_}, kills={'isu': ins(U), 'isc': ins(A)}, targets=[('unconfirmed output', ins(U), {'isu'}), ('output of the chain', ins(A), {'isc'})], no_inline=NI, min_sites=2)
    c.gates('R6', g, K, {'bu': 'its transaction is unconfirmed', 'bc': 'its transaction is in a block'}, br={'bu': lambda a, p, ev: bu(a, p, ev) or both(a, p, '=='), 'bc': lambda a, p, ev: bc(a, p, ev) or both(a, p, '==')},
            targets=[('unconfirmed output', ins(U), {'bu'}), ('output of the chain', ins(A), {'bc'})], no_inline=NI, min_sites=2)
    c.gates('R6', g, K, {x: 'the %s of the output is that of the block or transaction' % x for x in ('blockHeight', 'transactionHash', 'unlockTime', 'transactionIndex')}, ev={x: (lambda ev, x=x: writes(x)(ev)) for x in ('blockHeight', 'transactionHash', 'unlockTime', 'transactionIndex')},
            targets=[('output added', ins(U, A), {'blockHeight', 'transactionHash', 'unlockTime', 'transactionIndex'})], no_inline=NI, min_sites=2)
    c.gates('R6', g, K, {'adv': 'the height advances'}, br={'adv': bu}, ev={'adv': lambda ev: writes('m_currentHeight')(ev)}, exits=lambda k, r: {'adv'} if k == 'ret' else None, no_inline=NI, min_sites=1)
    g = f['deleteUnconfirmedTransaction']
    c.gates('R6', g, K, {'was': 'the transaction is known and unconfirmed'}, br={'was': unconf}, targets=[('outputs deleted', calls(NS + 'deleteTransactionTransfers'), {'was'}), ('transaction deleted', rem(T), {'was'})], no_inline=NI + (NS + 'deleteTransactionTransfers',), min_sites=2)
    g = f['detach']
    high = lambda a, p, ev: leq(a, p, lambda t: m.param(t) and noff(t), lambda t: isf(t, 'blockHeight') and noff(t))
    ND = NI + (NS + 'deleteTransactionTransfers',)
    c.gates('R6', g, K, {'high': 'it, or an output it spends, is not below the height'}, br={'high': high}, kills={'high': rem(T)}, targets=[('transaction detached', rem(T), {'high'}), ('outputs detached', calls(NS + 'deleteTransactionTransfers'), {'high'})], no_inline=ND, min_sites=2)
    follow(c, 'R6', 'a transaction not below the height is detached', g, K, None, done=rem(T), trig_br=high, done_br=lambda a, p, ev: eq(a, p, lambda t: isf(t, 'blockHeight'), UNC), no_inline=ND)
    listed = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and m.param(ev.obj)
    pair(c, 'R6', 'a detached transaction is reported', g, K, listed, rem(T), ND)
    c.gates('R6', g, K, {'set': 'the height is set back', 'all': 'no transaction is left to look at'}, ev={'set': writes('m_currentHeight')}, br={'all': lambda a, p, ev: eq(a, p, lambda t: isc(t, 'begin') and owner(t) == T, lambda t: True) or lt(a, p, lambda t: isf(t, 'blockHeight'), lambda t: m.param(t)) or eq(a, p, lambda t: isc(t, 'end', 'rend') and owner(t) == T, lambda t: True)},
            targets=[('locked outputs listed', calls(NS + 'getLockingTransfers'), {'set'})], exits=lambda k, r: {'set', 'all'} if k == 'ret' else None, no_inline=ND, min_sites=2)
    for n in ('detach', 'addTransaction', 'advanceHeight'):
        hh = Hits(E, K, writes('m_currentHeight'), no_inline=ND)
        c.run(hh, f[n])
        c.check(bool(hh.hits), 'R6', 'the height is kept', '%s in %s' % (f[n].loc(), f[n].qn), construct='m_currentHeight in ' + f[n].qn)
        for ev in hh.hits:
            c.check(m.param(ev.rhs), 'R6', 'the height is that of the block', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='m_currentHeight in ' + f[n].qn)
    c.gates('R6', f['advanceHeight'], K, {'up': 'the height does not fall'}, br={'up': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_currentHeight'), lambda t: m.param(t))}, targets=[('height set', writes('m_currentHeight'), {'up'})], no_inline=NI, min_sites=1)
    follow(c, 'R6', 'an unconfirmed transaction goes with the outputs that it spent', f['detach'], K, None, done=rem(T), done_br=lambda a, p, ev: lt(a, p, lambda t: isf(t, 'blockHeight'), lambda t: m.param(t) and noff(t)), trig_br=more(S), no_inline=ND)
    # R7
    incl = lambda a, p: truth_of(a, p, 'isIncluded')
    seen = lambda a, p: flag(a, p, lambda t: isf(t, 'visible'))
    KV = {NS + x for x in SETS} | {NS + 'isIncluded'}
    NV = (NS + 'isIncluded',)
    asked = lambda a, p, ev: m.glob(a, 'IncludeStateLocked') or 'IncludeStateLocked' in str(a)
    for n, take in (('balance', lambda ev: ev.kind == 'write' and ev.op in ('+=', '=') and isf(ev.rhs, 'amount') or ev.kind == 'write' and strip(ev.rhs)[0] == 'op' and m.fld(ev.rhs, 'amount')), ('getOutputs', lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and m.param(ev.obj))):
        nxt = lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, U, A)) == 1
        c.gates('R7', f[n], KV, {'seen': 'the output is visible', 'incl': 'its type and state were asked for'}, br={'seen': lambda a, p, ev: seen(a, p) == 1, 'incl': lambda a, p, ev: incl(a, p) == 1}, kills={'seen': take, 'incl': take}, targets=[('output taken', take, {'seen', 'incl'})], no_inline=NV, min_sites=1)
        for C in (A, U):
            c.each('R7', 'every included output of %s is taken' % C, f[n], KV, lambda t, C=C: isf(t, C), done=take, done_br=lambda a, p, ev: seen(a, p) == 0 or incl(a, p) == 0, exits=lambda k, r: False, no_inline=NV)
        hh = Hits(E, KV, lambda ev: ev.kind == 'call' and ev.name == 'isIncluded', no_inline=NV)
        c.run(hh, f[n])
        for ev in hh.hits:
            un = m.fld(ev.args[0], U)
            c.check(m.param(ev.args[-1]) and (not un or len(ev.args) == 2 or 'IncludeStateLocked' in str(ev.args[1])), 'R7', 'the requested types and states are compared', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='isIncluded in ' + f[n].qn)
        done_all = lambda C: (lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, C)) == 0)
        noask = lambda a, p, ev: flag(a, p, lambda t: not isc(t, 'isIncluded') and 'IncludeStateLocked' in str(t)) == 0
        c.gates('R7', f[n], KV, {A: 'all available outputs were looked at', U: 'all unconfirmed outputs were looked at, or locked ones were not asked for'}, br={A: done_all(A), U: lambda a, p, ev: done_all(U)(a, p, ev) or noask(a, p, ev)}, exits=lambda k, r: {A, U} if k == 'ret' else None, no_inline=NV, min_sites=1)
    inc = [x for x in F.q(NS + 'isIncluded')]
    for g in inc:
        if NS + 'm_currentHeight' in g.names or NS + 'isSpendTimeUnlocked' in g.names:
            st = lambda n: (lambda ev: ev.kind == 'write' and n in str(ev.rhs) or ev.kind == 'decl' and False)
            un = lambda a, p, ev: truth_of(a, p, 'isSpendTimeUnlocked') == 1
            cf = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'blockHeight'), UNC)
            aged = lambda t: m.fld(t, 'm_transactionSpendableAge') and m.fld(t, 'blockHeight')
            cur = lambda t: isf(t, 'm_currentHeight')
            c.gates('R7', g, {NS + 'isSpendTimeUnlocked', NS + 'm_currentHeight'}, {'time': 'its unlock time has come', 'conf': 'it is confirmed', 'aged': 'it is old enough', 'young': 'it is not old enough yet'}, br={'time': un, 'conf': cf, 'aged': lambda a, p, ev: leq(a, p, aged, cur), 'young': lambda a, p, ev: lt(a, p, cur, aged)},
                    targets=[('unlocked', st('IncludeStateUnlocked'), {'time', 'conf', 'aged'}), ('soft-locked', st('IncludeStateSoftLocked'), {'time', 'conf', 'young'})], no_inline=(NS + 'isSpendTimeUnlocked', NS + 'isIncluded'), min_sites=1)
            c.gates('R7', g, {NS + 'isSpendTimeUnlocked', NS + 'm_currentHeight'}, {'lock': 'its unlock time has not come, or it is unconfirmed'}, br={'lock': lambda a, p, ev: truth_of(a, p, 'isSpendTimeUnlocked') == 0 or eq(a, p, lambda t: isf(t, 'blockHeight'), UNC)},
                    targets=[('locked', st('IncludeStateLocked'), {'lock'})], no_inline=(NS + 'isSpendTimeUnlocked', NS + 'isIncluded'), min_sites=1)
    # unlock times
    g = f['isSpendTimeUnlocked']
    v = Values(E)
    c.run(v, g)
    h_ = lambda t: isf(t, 'm_currentHeight')
    now = lambda t: isc(t, 'time')
    one_ = lambda t: const_of(t) == 1
    forms = {'height': ((lambda t: isf(t, 'unlockTime'),), (h_, lambda t: isc(t, 'lockedTxAllowedDeltaBlocks'))),
             'time': ((lambda t: isf(t, 'unlockTime'),), (now, lambda t: isc(t, 'lockedTxAllowedDeltaSeconds'))),
             'term': ((lambda t: isf(t, 'blockHeight'), lambda t: isf(t, 'term')), (h_, one_))}

    def form(t):
        for n, (l, r) in forms.items():
            if t[1] == '<=' and summands(t[2], *l) and summands(t[3], *r):
                return n, 1
            if t[1] == '<' and summands(t[2], *r) and summands(t[3], *l):
                return n, 0
            if n == 'term' and t[1] == '<' and summands(t[2], *l) and summands(t[3], h_, lambda t: const_of(t) == 2):
                return n, 1
        return None, 0
    found = set()
    for (t, pol, value), (line, fn) in sorted(v.out.items(), key=str):
        if not (m.fld(t, 'm_currentHeight') or m.call(t, 'time')):
            continue
        n, way = form(t)
        found.add(n)
        c.check(n is not None and (not value or way == pol), 'R7', 'an output is unlocked when its height or time has come', '%s in %s' % (fn.loc(line), fn.qn), construct='unlock comparison in ' + g.qn)
    for n in forms:
        c.check(n in found, 'R7', 'the %s of the output is compared' % {'height': 'unlock height', 'time': 'unlock time', 'term': 'deposit term'}[n], '%s in %s' % (g.loc(), g.qn), construct='%s in %s' % (n, g.qn))
    isform = lambda way, *ns: (lambda a, p, ev: p == 1 and a[0] == 'cmp' and form(a)[0] in ns and form(a)[1] == way)
    plain = lambda a, p, ev: not_enum(a, p, lambda t: isf(t, 'type'), 'Multisignature') or is_enum(a, p, lambda t: isf(t, 'type'), 'Key') or eq(a, p, lambda t: isf(t, 'term'), lambda t: const_of(t) == 0) or flag(a, p, lambda t: isf(t, 'term')) == 0
    c.gates('R7', g, set(), {'t': 'its unlock time has come', 'd': 'it is no deposit, or its term has passed', 'no': 'its unlock time has not come'}, br={'t': isform(1, 'height', 'time'), 'd': lambda a, p, ev: plain(a, p, ev) or isform(1, 'term')(a, p, ev), 'no': isform(0, 'height', 'time', 'term')},
            exits=lambda k, r: None if k != 'ret' else {'t', 'd'} if r == TRUE else {'no'} if r == FALSE else {'t'} if r[0] == 'cmp' and form(r)[0] == 'term' else None, min_sites=1)
    c.gates('R7', g, set(), {'h': 'it is a height', 's': 'it is a time'}, br={'h': lambda a, p, ev: lt(a, p, lambda t: isf(t, 'unlockTime'), lambda t: isc(t, 'maxBlockHeight')), 's': lambda a, p, ev: leq(a, p, lambda t: isc(t, 'maxBlockHeight'), lambda t: isf(t, 'unlockTime'))},
            targets=[('compared as a height', calls('cn::Currency::lockedTxAllowedDeltaBlocks'), {'h'}), ('compared as a time', calls('cn::Currency::lockedTxAllowedDeltaSeconds'), {'s'})], min_sites=1)
    # jobs
    for n in ('getLockingTransfers', 'getUnlockingTransfers'):
        g = F.q1(NS + n)
        KJ = {NS + 'm_transfersUnlockJobs', NS + 'getAvailableOutput'}
        bound = lambda t: strip(t)[0] in ('phi', 'cond') or isc(t, 'upper_bound', 'begin') and owner(t) == 'm_transfersUnlockJobs'
        hh = Hits(E, KJ, lambda ev: ev.kind == 'call' and ev.name in ('upper_bound', 'lower_bound') and owner(ev.obj) == 'm_transfersUnlockJobs', no_inline=(NS + 'getAvailableOutput',))
        c.run(hh, g)
        args = set()
        for ev in hh.hits:
            ok = ev.name == 'upper_bound' and summands(ev.args[0], m.param, one_) or ev.name == 'lower_bound' and summands(ev.args[0], m.param, lambda t: const_of(t) == 2)
            args |= {x for x in parts(ev.args[0]) if m.param(x)}
            c.check(ok, 'R8', 'the jobs between the two heights are taken', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='job range in ' + g.qn)
        c.check(len(args) == 2, 'R8', 'the jobs between the two heights are taken', '%s in %s' % (g.loc(), g.qn), construct='job range in ' + g.qn)
        add_ = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back')
        follow(c, 'R8', 'every output that becomes locked or unlocked is listed', g, KJ, lambda ev: ev.kind == 'call' and ev.name == 'getAvailableOutput', done=add_, no_inline=(NS + 'getAvailableOutput',), exits=lambda k, r: k == 'ret')
        c.gates('R8', g, KJ, {'all': 'all jobs between the heights were visited'}, br={'all': lambda a, p, ev: eq(a, p, bound, bound) or lt(a, p, lambda t: m.param(t), lambda t: m.param(t))}, exits=lambda k, r: {'all'} if k == 'ret' else None, no_inline=(NS + 'getAvailableOutput',), min_sites=1)
    # the table of types
    from itertools import product

    def lit(t):
        t = strip(t)
        z, way = t, 1
        if t[0] == 'cmp' and t[1] in ('==', '!=') and (const_of(t[2]) == 0 or const_of(t[3]) == 0):
            z, way = strip(t[3] if const_of(t[2]) == 0 else t[2]), 1 if t[1] == '!=' else 0
        if z[0] == 'op' and z[1] == '&':
            for n in ('Key', 'Multisignature', 'Deposit'):
                if 'IncludeType' + n in str(z):
                    return 'f' + n, way
            return ('state', way) if all(strip(x)[0] == 'param' for x in z[2:4]) else None
        if isf(z, 'term'):
            return 'term', way
        if t[0] == 'cmp' and t[1] == '<' and const_of(t[2]) == 0 and isf(t[3], 'term') or t[0] == 'cmp' and t[1] == '<=' and const_of(t[2]) == 1 and isf(t[3], 'term'):
            return 'term', 1
        if t[0] == 'cmp' and (t[1] == '<=' and const_of(t[3]) == 0 or t[1] == '<' and const_of(t[3]) == 1) and isf(t[2], 'term'):
            return 'term', 0
        for n in ('Key', 'Multisignature'):
            if is_enum(t, 1, lambda x: isf(x, 'type'), n):
                return 't' + n, 1
            if not_enum(t, 1, lambda x: isf(x, 'type'), n):
                return 't' + n, 0
        return None
    for g in inc:
        if NS + 'm_currentHeight' in g.names or NS + 'isSpendTimeUnlocked' in g.names:
            continue
        r = Table(E, lit)
        c.run(r, g)
        L = ('fKey', 'fMultisignature', 'fDeposit', 'state', 'term', 'tKey', 'tMultisignature')
        for (facts, ret), line in sorted(r.rets.items(), key=str):
            ok = True
            for vals in product((False, True), repeat=7):
                e = dict(zip(L, vals))
                if e['tKey'] and e['tMultisignature'] or any(e[n] != bool(v) for n, v in facts if n in e):
                    continue
                v = r.value(ret, e)
                w = e['state'] and (e['fKey'] and e['tKey'] or e['fMultisignature'] and e['tMultisignature'] and not e['term'] or e['fDeposit'] and e['tMultisignature'] and e['term'])
                ok = ok and (v is None or v == w)
            c.check(ok, 'R7', 'an output is included exactly when its type and its state were asked for', '%s in %s' % (g.loc(line), g.qn), construct='isIncluded of %s' % ', '.join(sorted('%s%s' % ('' if v else 'not ', n) for n, v in facts)))
    # R8
    g = f['getTransfer']
    KG = {NS + x for x in SETS} | {NS + 'isSpendTimeUnlocked'}
    hit = {C: (lambda a, p, ev, C=C: ne(a, p, lambda t: isc(t, 'find') and owner(t) == C, lambda t: isc(t, 'end') and owner(t) == C)) for C in SETS}
    names = {C: 'the output was found among ' + C for C in SETS}
    names.update({'unl': 'its unlock time has come', 'aged': 'it is old enough', 'lock': 'it is not spendable yet'})
    br = dict(hit)
    aged = lambda t: m.fld(t, 'm_transactionSpendableAge') and m.fld(t, 'blockHeight')
    cur = lambda t: isf(t, 'm_currentHeight')
    br.update({'unl': lambda a, p, ev: truth_of(a, p, 'isSpendTimeUnlocked') == 1, 'aged': lambda a, p, ev: leq(a, p, aged, cur), 'lock': lambda a, p, ev: truth_of(a, p, 'isSpendTimeUnlocked') == 0 or lt(a, p, cur, aged)})
    out = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'param'
    state = lambda n: (lambda ev: out(ev) and enumv(ev.rhs, n))
    c.gates('R8', g, KG, names, br=br, targets=[('output of %s reported' % C, lambda ev, C=C: out(ev) and m.fld(ev.rhs, C), {C}) for C in SETS] + [('reported unconfirmed', state('TransferUnconfirmed'), {U}), ('reported spent', state('TransferSpent'), {S}), ('reported available', state('TransferAvailable'), {A, 'unl', 'aged'}), ('reported locked', state('TransferLocked'), {A, 'lock'})], no_inline=(NS + 'isSpendTimeUnlocked',), min_sites=4)
    c.gates('R8', g, KG, {'out': 'the output is reported', 'state': 'its state is reported'}, ev={'out': lambda ev: out(ev) and any(m.fld(ev.rhs, C) for C in SETS), 'state': lambda ev: out(ev) and any(enumv(ev.rhs, n) for n in ('TransferUnconfirmed', 'TransferSpent', 'TransferAvailable', 'TransferLocked'))}, exits=lambda k, r: {'out', 'state'} if k == 'ret' and r != FALSE else None, no_inline=(NS + 'isSpendTimeUnlocked',), min_sites=1)
