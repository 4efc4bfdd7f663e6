from sa.rules import *
from sa.engine import Rule, TRUE, FALSE
from .common import *

META = dict(
    title='Removing a block undoes exactly what adding it did, in every index',
    statement='Adding a block to the main chain enters it in the block list, the block-hash index, the timestamp index, the generated-transactions index, the deposit index and every upgrade detector, and enters each of its transactions (spent key images, spent multisignature outputs, new outputs with their global index, payment id, transaction map). Removing the last block takes it out of every one of those structures, and undoes every input and output of every one of its transactions. Rebuilding the cache clears each structure that it refills and applies the same treatment to every input and output of every stored transaction; starting a new chain clears all of them.',
    over=['histories'],
    qtext='every sequence of block additions, removals, reorganisations, rollbacks and rebuilds; every kind of input and output in the blocks',
    why='Tests reorganise a few short chains with few transaction kinds; an index left out of one of the two directions only shows after a particular history and then corrupts consensus state silently.',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/BlockchainIndices.cpp', 'src/CryptoNoteCore/DepositIndex.cpp', 'src/CryptoNoteCore/BlockIndex.h'],
    mechanism=[('mirror of block addition', 'Blockchain::popBlock, Blockchain::removeLastBlock'), ('mirror of transaction entry', 'Blockchain::popTransaction'), ('refill from stored blocks', 'Blockchain::rebuildCache')],
    state=[('chain-side indices', 'derived from the block list', 'Blockchain::m_transactionMap, m_spent_keys, m_outputs, m_multisignatureOutputs, m_depositIndex, m_paymentIdIndex, m_timestampIndex, m_generatedTransactionsIndex, m_blockIndex'), ('upgrade detectors', 'upgrade heights found by block versions', 'Blockchain::m_upgradeDetectorV*')],
    observe=['queries for key images, outputs, deposits, payment ids and timestamps after a reorganisation'],
    technique='mirror analysis: path-sensitive must-happen and per-element treatment over the CFG, with loop-coverage (index range) reasoning',
    level_note='Decides presence, order and coverage of the index updates on every path, and the key each update uses; stored values of arithmetic (deposit sums) are compared structurally only.',
)
MIN = 30
EXPLAIN = 'Every CFG path of the functions that add, remove, refill or reset blocks; obligations are one per index and direction, per input/output kind and direction, and per loop over inputs, outputs and transactions.'

BC = 'cn::Blockchain::'
INP, OUTP = 'cn::TransactionPrefix::inputs', 'cn::TransactionPrefix::outputs'
TXS = BC + 'BlockEntry::transactions'


def obj_is(ev, *fields):
    if ev.obj is None:
        return False
    o = strip(ev.obj)
    return o[0] == 'fld' and last(o[2]) in fields


def fterm(t, name):
    t = strip(t)
    return t[0] == 'fld' and (t[2] == name or last(t[2]) == name)


class Steps(Rule):
    """named steps, each at most once on a path; some must precede others; required set at exits"""

    def __init__(self, E, keys, steps, exits, stale=None, no_inline=()):
        self.E, self.keys, self._s, self._x, self._stale = E, keys, steps, exits, stale
        self.no_inline = no_inline
        self.init = frozenset()
        self.reset()

    def reset(self):
        self.sites = {}
        self.dups = {}
        self.stales = {}

    def event(self, f, ev, st):
        if self.final and self._stale:
            n = self._stale(f, ev)
            if n:
                self.stales[(n, ev.fn.id, ev.line)] = self.E.path(st)
        for n, p in self._s.items():
            if p(ev):
                if n in f and self.final:
                    self.dups[(n, ev.fn.id, ev.line)] = self.E.path(st)
                f = f | {n}
        return f

    def leave(self, f, kind, ret, ev, st):
        need = self._x(kind, ret, f)
        if need is None:
            return
        k = (ev.fn.id, ev.line)
        d = self.sites.setdefault(k, {})
        for n in need:
            d.setdefault(n, None)
            if n not in f:
                d[n] = self.E.path(st) or ['entry']


def report(c, rid, fn, r, text):
    for (fid, line), d in sorted(r.sites.items()):
        f = c.F.fns[fid]
        for n, p in sorted(d.items()):
            if p is None:
                c.ok(rid, text(n), '%s in %s' % (f.loc(line), f.qn))
            else:
                c.bad(rid, text(n), '%s in %s' % (f.loc(line), f.qn), p, construct='%s in %s' % (n, fn.qn))
    for (n, fid, line), p in sorted(r.dups.items()):
        f = c.F.fns[fid]
        c.bad(rid, 'step "%s" is done twice' % n, '%s in %s' % (f.loc(line), f.qn), p, construct='twice %s in %s' % (n, fn.qn))
    for (n, fid, line), p in sorted(r.stales.items()):
        f = c.F.fns[fid]
        c.bad(rid, n, '%s in %s' % (f.loc(line), f.qn), p, construct='%s in %s' % (n, fn.qn))


def lits(c):
    m = c.m
    errlog = lambda ev: ev.kind == 'call' and ev.name == 'operator()' and ev.args and m.glob(ev.args[0], 'ERROR') and m.fld(ev.obj, 'logger')
    erased = lambda tab, sub: (lambda ev: ev.kind == 'call' and ev.name == 'erase' and obj_is(ev, tab) and m.fld(ev.args[0], sub))
    used = lambda v: (lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == 'isUsed' and ev.rhs == v and m.fld(ev.lhs[1], 'm_multisignatureOutputs') and m.fld(ev.lhs[1], 'outputIndex') and m.fld(ev.lhs[1], 'amount'))
    popped = lambda tab: (lambda ev: ev.kind == 'call' and ev.name in ('pop_back', 'erase', 'resize') and m.fld(ev.obj, tab) and not obj_is(ev, tab))
    pushed = lambda tab: (lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and m.fld(ev.obj, tab) and m.fld(ev.obj, 'amount'))
    tt = lambda T: (lambda a, p, ev: (lambda r: None if r is None else r[1])(type_test(a, p, T)))
    inp, outp = (lambda t: fterm(t, INP)), (lambda t: fterm(t, OUTP))
    tabs = {BC + 'm_outputs', BC + 'm_multisignatureOutputs', BC + 'm_spent_keys'}
    either = lambda *ps: (lambda ev: any(p(ev) for p in ps))
    anytest = lambda *Ts: (lambda a, p, ev: any(type_test(a, p, T) is not None for T in Ts))
    return locals()


def undo_tx(c, rid):
    """obligations of the function that undoes one transaction"""
    F, E, m = c.F, c.E, c.m
    L = lits(c)
    tabs, tt, used, popped, either, anytest, erased, inp, outp, errlog = (L[k] for k in ('tabs', 'tt', 'used', 'popped', 'either', 'anytest', 'erased', 'inp', 'outp', 'errlog'))
    fn = F.q1(BC + 'popTransaction')
    c.forall(rid, 'the key image of every key input is removed from the spent keys', fn, tabs, tt('KeyInput'), erased('m_spent_keys', 'keyImage'))
    c.forall(rid, 'every multisignature input marks its output unused again', fn, tabs, tt('MultisignatureInput'), either(used(FALSE), errlog))
    c.forall(rid, 'every key output is taken off the output table of its amount', fn, tabs, tt('KeyOutput'), either(popped('m_outputs'), errlog))
    c.forall(rid, 'every multisignature output is taken off the multisignature table of its amount', fn, tabs, tt('MultisignatureOutput'), either(popped('m_multisignatureOutputs'), errlog))
    ever(c, rid, 'an unused mark is set', fn, tabs, used(FALSE))
    ever(c, rid, 'a key output is popped', fn, tabs, popped('m_outputs'))
    ever(c, rid, 'a multisignature output is popped', fn, tabs, popped('m_multisignatureOutputs'))
    c.each(rid, 'every input is examined', fn, tabs, inp, done_br=anytest('KeyInput', 'MultisignatureInput'))
    c.each(rid, 'every output is examined', fn, tabs, outp, done_br=anytest('KeyOutput', 'MultisignatureOutput'))
    c.gates(rid, fn, {BC + 'm_paymentIdIndex', BC + 'm_transactionMap'}, {'pid': 'the payment-id entry is removed', 'map': 'the transaction-map entry is removed'},
            ev={'pid': lambda ev: ev.kind == 'call' and ev.name == 'remove' and obj_is(ev, 'm_paymentIdIndex') and m.param(ev.args[0], 0),
                'map': lambda ev: ev.kind == 'call' and ev.name == 'erase' and obj_is(ev, 'm_transactionMap') and m.param(ev.args[0], 1)},
            exits=lambda k, r: {'pid', 'map'} if k == 'ret' else None)
    # outputs are undone from the last to the first
    reverse_outputs(c, fn, popped, rid)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'removing the last block: every chain structure is updated, from the block being removed, exactly once, on every path that removes it')
    c.rule('R2', 'adding a block: every chain structure is updated on every accepting path')
    c.rule('R3', 'undoing a transaction treats every input and output and removes the map and payment-id entries')
    c.rule('R4', 'entering a transaction treats every input and output and adds the payment-id entry')
    c.rule('R5', 'rebuilding clears what it refills and treats every block, transaction, input and output')
    c.rule('R6', 'starting a new chain clears every chain structure')
    c.rule('R7', 'the index classes remove the entry they added')
    rec = F.record('cn::Blockchain')
    dets = sorted(last(n) for n, t in rec_fields(rec) if 'UpgradeDetector' in t)
    if len(dets) < 3:
        c.broken('upgrade detectors of Blockchain not found')
    back = lambda t: m.has(t, lambda x: x[0] == 'call' and last(x[1]) == 'back' and x[2] is not None and m.fld(x[2], 'm_blocks'))
    removal = {
        'transactions': lambda ev: ev.kind == 'call' and ev.qn == BC + 'popTransactions' and back(ev.args[0]),
        'timestamp index': lambda ev: ev.kind == 'call' and ev.name == 'remove' and obj_is(ev, 'm_timestampIndex') and back(ev.args[0]) and m.fld(ev.args[0], 'timestamp'),
        'generated-transactions index': lambda ev: ev.kind == 'call' and ev.name == 'remove' and obj_is(ev, 'm_generatedTransactionsIndex') and back(ev.args[0]),
        'deposit index': lambda ev: ev.kind == 'call' and ev.name == 'popBlock' and obj_is(ev, 'm_depositIndex'),
        'block list': lambda ev: ev.kind == 'call' and ev.name == 'pop_back' and obj_is(ev, 'm_blocks'),
        'block-hash index': lambda ev: ev.kind == 'call' and ev.name == 'pop' and obj_is(ev, 'm_blockIndex'),
    }
    for d in dets:
        removal['detector ' + d] = (lambda d: lambda ev: ev.kind == 'call' and ev.name == 'blockPopped' and obj_is(ev, d))(d)
    keys = {BC + x for x in ('popTransactions', 'm_timestampIndex', 'm_generatedTransactionsIndex', 'm_depositIndex', 'm_blockIndex')} | {BC + d for d in dets}
    noin = (BC + 'popTransactions', BC + 'popTransaction', BC + 'saveTransactions', BC + 'getBlockIdByHeight', BC + 'getTailId')

    def stale(f, ev):
        if 'block list' in f and ev.kind == 'call' and ev.name == 'back' and obj_is(ev, 'm_blocks'):
            return 'the block list is read after its last block was removed'

    removers = [f for f in F.cls('cn::Blockchain') if any(e[0] == 'c' and e[4].endswith('::pop_back') and e[5] >= 0 and f.ex[e[5]][0] == 'm' and f.ex[e[5]][4] == BC + 'm_blocks' for e in f.ex)]
    if not removers:
        c.broken('no function removes a block from m_blocks')
    tops = set()
    for f in removers:
        # climb from helpers to the functions that form the whole removal
        tops.add(f.id)
    for t in ('popBlock', 'removeLastBlock'):
        for f in F.q(BC + t, must=False):
            tops.add(f.id)
    reached = set()
    runs = {}
    for t in sorted(tops):
        fn = F.fns[t]
        r = Steps(E, keys, removal, lambda k, ret, f: set(removal) if k == 'ret' and f else None, stale, no_inline=noin)
        c.run(r, fn)
        runs[t] = (fn, r, set(E.inlined))
    helpers = set()
    for t, (fn, r, inl) in runs.items():
        helpers |= inl & tops
    for t, (fn, r, inl) in runs.items():
        if t in helpers:
            continue
        if not r.sites:
            c.broken('%s: no removing path' % fn.qn)
        report(c, 'R1', fn, r, lambda n: 'removing a block updates: ' + n)
    # popTransactions covers all transactions: 1..n-1 from the list, and the miner transaction
    fn = F.q1(BC + 'popTransactions')
    cover_transactions(c, fn)
    # R2
    fn = F.q1(BC + 'pushBlock', 'std::vector')
    addn = {
        'block list': lambda ev: ev.kind == 'call' and ev.name == 'push_back' and obj_is(ev, 'm_blocks'),
        'block-hash index': lambda ev: ev.kind == 'call' and ev.name == 'push' and obj_is(ev, 'm_blockIndex'),
        'timestamp index': lambda ev: ev.kind == 'call' and ev.name == 'add' and obj_is(ev, 'm_timestampIndex') and m.fld(ev.args[0], 'timestamp'),
        'generated-transactions index': lambda ev: ev.kind == 'call' and ev.name == 'add' and obj_is(ev, 'm_generatedTransactionsIndex'),
        'deposit index': lambda ev: ev.kind == 'call' and ev.name == 'pushBlock' and obj_is(ev, 'm_depositIndex'),
    }
    for d in dets:
        addn['detector ' + d] = (lambda d: lambda ev: ev.kind == 'call' and ev.name == 'blockPushed' and obj_is(ev, d))(d)
    r = Steps(E, keys, addn, lambda k, ret, f: set(addn) if k == 'ret' and ret != FALSE else None, no_inline=noin + (BC + 'pushTransaction', BC + 'haveTransaction'))
    c.run(r, fn)
    report(c, 'R2', fn, r, lambda n: 'adding a block updates: ' + n)
    undo_tx(c, 'R3')
    L = lits(c)
    tabs, tt, used, pushed, either, anytest, erased, inp, outp = (L[k] for k in ('tabs', 'tt', 'used', 'pushed', 'either', 'anytest', 'erased', 'inp', 'outp'))
    # R4
    fn = F.q1(BC + 'pushTransaction')
    tabs4 = tabs | {BC + 'm_transactionMap', BC + 'm_paymentIdIndex'}
    okexit = lambda k, r: k == 'ret' and r != FALSE
    ins = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and obj_is(ev, 'm_spent_keys') and any(m.fld(a, 'keyImage') for a in ev.args)
    insf = lambda a, p, ev: False
    c.forall('R4', 'the key image of every key input is inserted', fn, tabs, first_test(tt('KeyInput')), either(ins, erased('m_spent_keys', 'keyImage')), exits=okexit)
    c.forall('R4', 'every multisignature input marks its output used', fn, tabs, lastcut(c, fn, tabs, tt('MultisignatureInput'), used(TRUE)), used(TRUE), exits=okexit)
    c.forall('R4', 'every key output is appended to the output table of its amount', fn, tabs, tt('KeyOutput'), pushed('m_outputs'), exits=okexit)
    c.forall('R4', 'every multisignature output is appended to the multisignature table of its amount', fn, tabs, tt('MultisignatureOutput'), pushed('m_multisignatureOutputs'), exits=okexit)
    c.each('R4', 'every output is examined', fn, tabs, outp, done_br=anytest('KeyOutput', 'MultisignatureOutput'), exits=okexit)
    c.each('R4', 'every input is examined', fn, tabs, inp, done_br=anytest('KeyInput', 'MultisignatureInput'), exits=okexit)
    c.gates('R4', fn, tabs4, {'pid': 'the payment-id entry is added', 'map': 'the transaction-map entry is added'},
            ev={'pid': lambda ev: ev.kind == 'call' and ev.name == 'add' and obj_is(ev, 'm_paymentIdIndex'),
                'map': lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and obj_is(ev, 'm_transactionMap')},
            exits=lambda k, r: {'pid', 'map'} if okexit(k, r) else None)
    # the global index is the position the output gets
    for T, tab in (('KeyOutput', 'm_outputs'), ('MultisignatureOutput', 'm_multisignatureOutputs')):
        gi = lambda ev, tab=tab: ev.kind == 'write' and m.fld(ev.lhs, 'm_global_output_indexes') and m.has(ev.rhs, lambda x: x[0] == 'size' and m.fld(x[1], tab) and m.fld(x[1], 'amount'))
        c.must_pass('R4', 'the recorded global index is the size of the table before the output is appended (%s)' % tab, fn, tabs,
                    gevent=gi, target=pushed(tab), kill=lambda ev, tab=tab: ev.kind == 'call' and pushed(tab)(ev))
    # R5
    fn = F.q1(BC + 'rebuildCache')
    tabs5 = {BC + x for x in ('m_outputs', 'm_multisignatureOutputs', 'm_spent_keys', 'm_transactionMap', 'm_blockIndex', 'm_depositIndex', 'pushToDepositIndex')}
    for T in ('m_blockIndex', 'm_transactionMap', 'm_spent_keys', 'm_outputs', 'm_multisignatureOutputs', 'm_depositIndex'):
        c.must_pass('R5', '%s is cleared before it is refilled' % T, fn, tabs5, gevent=cleared(c, T), target=refill(c, T))
    c.forall('R5', 'every key input is entered in the spent keys', fn, tabs, tt('KeyInput'), ins, exits=okexit)
    c.forall('R5', 'every multisignature input marks its output used', fn, tabs, tt('MultisignatureInput'), used(TRUE), exits=okexit)
    c.forall('R5', 'every key output is appended to the output table of its amount', fn, tabs, tt('KeyOutput'), pushed('m_outputs'), exits=okexit)
    c.forall('R5', 'every multisignature output is appended to its table', fn, tabs, tt('MultisignatureOutput'), pushed('m_multisignatureOutputs'), exits=okexit)
    okdone = lambda k, r: okexit(k, r)
    blocks = lambda t: fterm(t, BC + 'm_blocks')
    txs = lambda t: fterm(t, TXS)
    c.each('R5', 'every block is visited', fn, tabs5, blocks, done=lambda ev: ev.kind == 'call' and ev.name == 'pushBlock' and obj_is(ev, 'm_depositIndex'), exits=okdone)
    c.each('R5', 'every block hash is entered', fn, tabs5, blocks, done=lambda ev: ev.kind == 'call' and ev.name == 'push' and obj_is(ev, 'm_blockIndex'), exits=okdone)
    inner = lambda k, r: False
    c.each('R5', 'every transaction is entered in the transaction map', fn, tabs5, txs, done=lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and obj_is(ev, 'm_transactionMap'), exits=inner, no_inline=(BC + 'pushToDepositIndex',))
    c.each('R5', 'every input is examined', fn, tabs5, inp, done_br=anytest('KeyInput', 'MultisignatureInput'), exits=inner)
    c.each('R5', 'every output is examined', fn, tabs5, outp, done_br=anytest('KeyOutput', 'MultisignatureOutput'), exits=inner)
    # R6
    fn = F.q1(BC + 'resetAndSetGenesisBlock')
    conts = ['m_blocks', 'm_blockIndex', 'm_transactionMap', 'm_spent_keys', 'm_outputs', 'm_multisignatureOutputs', 'm_depositIndex', 'm_alternative_chains',
             'm_paymentIdIndex', 'm_timestampIndex', 'm_generatedTransactionsIndex']
    ev = {x: cleared(c, x) for x in conts}
    c.gates('R6', fn, {BC + x for x in conts}, {x: 'a new chain starts with an empty ' + x for x in conts}, ev=ev,
            targets=[('first block', lambda e: e.kind == 'call' and e.qn in (BC + 'addNewBlock', BC + 'pushBlock'), set(conts))], no_inline=(BC + 'addNewBlock', BC + 'pushBlock'))
    indices(c)
    pushpop_deposit(c)


def rec_fields(rec):
    out = []
    for f in rec.get('fields', []):
        if isinstance(f, dict):
            out.append((f['name'], f['type']))
        else:
            out.append((f[0], f[1]))
    return out


def cleared(c, T):
    def p(ev):
        if ev.kind == 'call' and ev.name == 'clear' and obj_is(ev, T):
            return True
        if ev.kind == 'write' and ev.op == '=' and fterm(ev.lhs, T) and ev.rhs is not None and strip(ev.rhs)[0] in ('ctor', 'init') and not strip(ev.rhs)[2]:
            return True
        if ev.kind == 'call' and ev.name == 'operator=' and obj_is(ev, T):
            a = strip(ev.args[0])
            return a[0] in ('ctor', 'init') and not a[2]
        return False
    return p


def refill(c, T):
    def p(ev):
        if ev.kind != 'call' or ev.obj is None:
            return False
        if T == 'm_outputs' or T == 'm_multisignatureOutputs':
            return ev.name in ('push_back', 'emplace_back') and c.m.fld(ev.obj, T)
        return obj_is(ev, T) and ev.name in ('push', 'insert', 'emplace', 'pushBlock')
    return p


def first_test(tr):
    """only the first type test of an element counts as the trigger (later walks are rollbacks)"""
    return tr


def lastcut(c, fn, keys, tr, done):
    """the walk that performs the treatment: validation walks over the same inputs are not triggers"""
    rule = ForAll(c.E, keys, tr, done)
    c.run(rule, fn)
    # a test is a treatment test when the treatment is reached from it without another test
    sites = rule.treated if hasattr(rule, 'treated') else None
    if not sites:
        return tr
    return lambda a, p, ev: tr(a, p, ev) if (ev.fn.id, ev.line) in sites else None


def ever(c, rid, what, fn, keys, pred):
    hits = []

    class W(Rule):
        def __init__(s):
            s.keys = keys

        def event(s, f, ev, st):
            if s.final and pred(ev):
                hits.append(ev)
            return f
    c.run(W(), fn)
    c.check(bool(hits), rid, what, '%s in %s' % (hits[0].loc() if hits else fn.loc(), fn.qn), construct='%s in %s' % (what, fn.qn))


def norm(l):
    return {('n' if isinstance(k, tuple) else k): v for k, v in l.items() if v}


def cover_transactions(c, fn, rid='R1'):
    """popTransactions: popTransaction runs on transactions 1..n-1 and on the miner transaction; hashes belong to them"""
    E, m = c.E, c.m

    def pick(ev):
        if ev.kind == 'call' and ev.qn == BC + 'popTransaction':
            return ev.args
    r = Ranges(E, {BC + 'popTransaction'}, pick, no_inline=(BC + 'popTransaction',))
    c.run(r, fn)
    base = [h for h in r.hits if m.fld(h[1][0], 'baseTransaction')]
    rest = [h for h in r.hits if m.fld(h[1][0], TXS)]
    c.check(bool(base), rid, 'the miner transaction is undone', fn.loc(), construct='miner transaction in popTransactions')
    c.check(bool(rest), rid, 'the transactions of the block are undone', fn.loc(), construct='transactions in popTransactions')
    for ev, args in rest:
        t = find_idx(args[0], TXS)
        h = find_idx(args[1], 'transactionHashes')
        if t is None:
            continue      # an iterator loop: covered by the loop rule only
        rg = idx_range(E, t, r.ranges)
        if rg is None:
            continue
        lo, hi = norm(rg[0]), norm(rg[1])
        need_lo = {1: 1} if base else {}
        okr = lo in ({1: 1}, {}) and hi == {'n': 1, 1: -1} and (lo == {1: 1} or not base)
        c.check(okr, rid, 'the undo loop covers transactions 1..n-1 (found %s..%s)' % (lo, hi), ev.loc(), construct='range of the undo loop in popTransactions')
        if h is not None:
            d = ladd(lin(t), lin(h), -1)
            c.check(d == {1: 1}, rid, 'the hash handed to the undo is that of the same transaction', ev.loc(), construct='hash of the undone transaction')


def find_idx(t, field):
    """index expression of the first element access on the field inside t"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'idx' and fterm(x[1], field):
            return x[2]
        if x[0] == 'call' and last(x[1]) == 'operator[]' and x[2] is not None and fterm(x[2], field) and x[3]:
            return x[3][0]
        stack += [y for y in x if isinstance(y, tuple)]
    return None


def reverse_outputs(c, fn, popped, rid='R3'):
    """the output tables are stacks: outputs come off in reverse order"""
    E, m = c.E, c.m

    class O(Rule):
        keys = {BC + 'm_outputs', BC + 'm_multisignatureOutputs'}

        def __init__(s):
            s.reset()

        def reset(s):
            s.conds, s.idx = {}, []

        def event(s, f, ev, st):
            if s.final and ev.kind in ('call', 'decl') and ev.term is not None:
                t = find_idx(ev.term, OUTP)
                if t is not None:
                    s.idx.append((ev, t))
            return f

        def branch(s, f, atom, pol, ev):
            r = loop_cond(E, atom, pol) if ev.inl else None
            if r:
                starts = [v for v in flat_alts(E, r[0]) if not m.has(v, lambda x: x[0] == 'phi')]
                up = any(v == ('int', 0) for v in starts)
                s.conds[r[0]] = (r[1], r[2], 1 if up else -1)
            return f
    r = O()
    c.run(r, fn)
    seen = False
    for ev, t in r.idx:
        l = lin(t)
        p = [s for s in l if isinstance(s, tuple) and s[0] == 'phi' and s in r.conds]
        if len(p) != 1:
            continue
        seen = True
        sgn = l[p[0]] * r.conds[p[0]][2]
        rg = idx_range(E, t, {p[0]: r.conds[p[0]][:2]})
        okr = sgn == -1 and rg is not None and norm(rg[0]) == {} and norm(rg[1]) == {'n': 1, 1: -1}
        c.check(okr, rid, 'outputs are undone from the last to the first, all of them', ev.loc(), construct='order of output removal')
        break
    if not seen:
        c.ok(rid, 'outputs are walked with iterators (order not expressed as an index)', fn.loc())


def indices(c):
    F, E, m = c.F, c.E, c.m
    N = 'cn::'
    for cls, keyed in (('TimestampBlocksIndex', False), ('PaymentIdIndex', True), ('TimestampTransactionsIndex', False), ('OrphanBlocksIndex', True)):
        add, rem = F.q1(N + cls + '::add'), F.q1(N + cls + '::remove')
        idx = N + cls + '::index'
        got = {}
        for fn in (add, rem):
            hits = []

            class W(Rule):
                keys = None

                def event(s, f, ev, st):
                    if s.final and ev.kind == 'call' and ev.obj is not None and fterm(ev.obj, idx):
                        hits.append(ev)
                    return f
            c.run(W(), fn)
            got[fn.id] = hits
        a = [h for h in got[add.id] if h.name in ('emplace', 'insert')]
        c.check(len(a) >= 1, 'R7', '%s::add inserts' % cls, add.loc(), construct=cls + '::add inserts')
        look = [h for h in got[rem.id] if h.name in ('equal_range', 'lower_bound', 'find')]
        er = [h for h in got[rem.id] if h.name == 'erase']
        if a and look and len(a[0].args) == 2:
            same = norm_term(a[0].args[0]) == norm_term(look[0].args[0])
            c.check(same, 'R7', '%s::remove looks the entry up under the key add used' % cls, look[0].loc(), construct=cls + '::remove key')
        c.check(bool(er) or not look and False, 'R7', '%s::remove erases' % cls, rem.loc(), construct=cls + '::remove erases')
        if a and er and len(a[0].args) == 2:
            want = norm_term(a[0].args[1])
            g = lambda at, p, ev: at[0] == 'cmp' and at[1] == '==' and p == 1 and any(norm_term(strip(x)) == want for x in (at[2], at[3])) and any(m.has(strip(x), lambda y: y[0] == 'fld' and last(y[2]) == 'second') for x in (at[2], at[3]))
            c.must_pass('R7', '%s::remove erases only the entry holding the value add stored' % cls, rem, None, guard=g, target=lambda ev: ev.kind == 'call' and ev.name == 'erase' and fterm(ev.obj, idx))
        c.gates('R7', rem, None, {'erase': '%s::remove reports success only after erasing' % cls},
                ev={'erase': lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and fterm(ev.obj, idx)}, exits=lambda k, r: {'erase'} if k == 'ret' and r != FALSE else None)
    add, rem = F.q1('cn::GeneratedTransactionsIndex::add'), F.q1('cn::GeneratedTransactionsIndex::remove')
    gi, gl = 'cn::GeneratedTransactionsIndex::index', 'cn::GeneratedTransactionsIndex::lastGeneratedTxNumber'
    lastw = lambda ev: ev.kind == 'write' and fterm(ev.lhs, gl)
    c.gates('R7', add, None, {'ins': 'add inserts the running total', 'last': 'add advances the running total'},
            ev={'ins': lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and ev.obj is not None and fterm(ev.obj, gi) and any(m.fld(x, gl) for x in ev.args), 'last': lastw},
            exits=lambda k, r: {'ins', 'last'} if k == 'ret' and r == TRUE else None, min_sites=0)
    c.gates('R7', rem, None, {'er': 'remove erases the block', 'last': 'remove restores the running total'},
            ev={'er': lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and fterm(ev.obj, gi),
                'last': lambda ev: lastw(ev) and ev.op == '=' and (ev.rhs == ('int', 0) or m.fld(ev.rhs, 'second')) or lastw(ev) and ev.op == '-='},
            exits=lambda k, r: {'er', 'last'} if k == 'ret' and r == TRUE else None)
    cl = F.q1('cn::GeneratedTransactionsIndex::clear')
    c.gates('R7', cl, None, {'i': 'clear empties the index', 'l': 'clear resets the running total'},
            ev={'i': cleared_any(gi), 'l': lambda ev: lastw(ev) and ev.rhs == ('int', 0)}, exits=lambda k, r: {'i', 'l'} if k == 'ret' else None)
    for cls in ('TimestampBlocksIndex', 'PaymentIdIndex', 'TimestampTransactionsIndex', 'OrphanBlocksIndex'):
        cl = F.q1('cn::' + cls + '::clear')
        c.gates('R7', cl, None, {'i': '%s::clear empties the index' % cls}, ev={'i': cleared_any('cn::' + cls + '::index')}, exits=lambda k, r: {'i'} if k == 'ret' else None)
    # block hash index
    for fnn, nm in (('pop', ('pop_back', 'erase')), ('push', ('push_back', 'emplace_back')), ('clear', ('clear',))):
        fn = F.q1('cn::BlockIndex::' + fnn)
        c.gates('R7', fn, None, {'x': 'BlockIndex::%s changes the container' % fnn}, ev={'x': lambda ev, nm=nm: ev.kind == 'call' and ev.name in nm and ev.obj is not None and m.fld(ev.obj, 'm_container')},
                exits=lambda k, r: {'x'} if k == 'ret' else None)


def cleared_any(fq):
    def p(ev):
        return ev.kind == 'call' and ev.name == 'clear' and ev.obj is not None and fterm(ev.obj, fq)
    return p


def norm_term(t):
    """a term with local objects replaced by what produced them"""
    t = strip(t)
    if t[0] == 'obj':
        return ('obj', str(t[2]))
    return t


def pushpop_deposit(c):
    F, E, m = c.F, c.E, c.m
    D = 'cn::DepositIndex::'
    push, pop = F.q1(D + 'pushBlock'), F.q1(D + 'popBlock')
    cnt = lambda sign: (lambda ev: ev.kind == 'write' and fterm(ev.lhs, D + 'blockCount') and (ev.op in (('++', '+=') if sign > 0 else ('--', '-='))))
    c.gates('R7', push, None, {'n': 'DepositIndex::pushBlock counts the block'}, ev={'n': cnt(1)}, exits=lambda k, r: {'n'} if k == 'ret' else None)
    c.gates('R7', pop, None, {'n': 'DepositIndex::popBlock uncounts the block'}, ev={'n': cnt(-1)}, exits=lambda k, r: {'n'} if k == 'ret' else None)
    # an entry is stored whenever the block changes the amount or the interest
    ap = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and fterm(ev.obj, D + 'index')
    for i, nm in ((0, 'amount'), (1, 'interest')):
        c.must_pass('R7', 'DepositIndex::pushBlock skips the entry only when the %s is zero' % nm, push, None, gevent=ap, exits=lambda k, r: k == 'ret',
                    bypass=lambda a, p, ev, i=i: a[0] == 'cmp' and a[1] == '==' and p == 1 and any(strip(x) == ('int', 0) for x in (a[2], a[3])) and m.param(a, i) or a[0] == 'param' and a[1] == i and p == 0)
    c.must_pass('R7', 'DepositIndex::popBlock drops an entry only if it belongs to the removed block', pop, None,
                guard=lambda a, p, ev: eq(a, p, lambda t: m.fld(t, 'height'), lambda t: m.fld(t, 'blockCount')),
                target=lambda ev: ev.kind == 'call' and ev.name in ('pop_back', 'erase') and ev.obj is not None and fterm(ev.obj, D + 'index'))
    c.must_pass('R7', 'DepositIndex::popBlock drops the entry of the removed block', pop, None,
                gevent=lambda ev: ev.kind == 'call' and ev.name in ('pop_back', 'erase') and ev.obj is not None and fterm(ev.obj, D + 'index'), exits=lambda k, r: k == 'ret',
                bypass=lambda a, p, ev: ne(a, p, lambda t: m.fld(t, 'height'), lambda t: m.fld(t, 'blockCount')) or a[0] == 'empty' and p == 1)


def may_be(E, ev, st, ret, pol):
    """can the returned value be pol on this path?"""
    if ret in (TRUE, FALSE):
        return ret == (TRUE if pol else FALSE)
    if isinstance(ret, tuple) and ret and ret[0] in ('call', 'cmp', 'not', 'logic', 'in', 'empty', 'phi', 'cond'):
        from sa.engine import Frame
        return bool(E.assume(Frame(ev.fn, ('this',), 0, ev.stack), st, ret, pol, ev.line))
    return False


class Flagged(Rule):
    """a refusing exit must have set the failure flag of the verification context"""

    def __init__(self, E, keys, stop, exempt, flag='m_verification_failed', delegate=()):
        self.delegate = delegate
        self.E, self.keys, self.no_inline, self._x, self.flag = E, keys, stop, exempt, flag
        self.max_depth = 6
        self.init = 0
        self.reset()

    def reset(self):
        self.sites = {}

    def event(self, f, ev, st):
        if ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == self.flag:
            return 1 if ev.rhs == TRUE or isinstance(ev.rhs, tuple) and ev.rhs[0] == 'call' else 0
        return f

    def branch(self, f, a, p, ev):
        if f == 0 and self._x and self._x(a, p, ev):
            return 2
        return f

    def leave(self, f, kind, ret, ev, st):
        if kind == 'ret' and self.delegate and isinstance(ret, tuple) and isc(ret, *self.delegate):
            return      # the outcome is the callee's, which reports for itself
        if kind == 'ret' and may_be(self.E, ev, st, ret, 0):
            k = (ev.fn.id, ev.line)
            self.sites.setdefault(k, None)
            if not f:
                self.sites[k] = self.E.path(st) or ['entry']


def flagged(c, rid, fn, keys, stop, exempt=None, flag='m_verification_failed', delegate=()):
    r = Flagged(c.E, keys, stop, exempt, flag, delegate)
    c.run(r, fn)
    for (fid, line), p in sorted(r.sites.items()):
        f = c.F.fns[fid]
        if p is None:
            c.ok(rid, 'refusal is reported as failed verification', '%s in %s' % (f.loc(line), f.qn))
        else:
            c.bad(rid, 'refusal is reported as failed verification', '%s in %s' % (f.loc(line), f.qn), p, construct='unflagged refusal in ' + fn.qn)
