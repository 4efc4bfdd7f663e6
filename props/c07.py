from .common import *
from .c02 import obj_is, flagged, may_be

META = dict(
    title='The pool holds only admissible transactions and its indexes mirror it',
    statement='A transaction enters the pool only if it is new to chain and pool, its inputs have supported types and cover its outputs and, unless it is kept for a block, none of its inputs is spent, its inputs are valid, its size is allowed, its time-to-live is in range and free of fee, and it was not deleted recently. Every transaction in the pool, and no other, has its spent inputs, payment id, timestamp and time-to-live in the pool indexes, after additions, removals, expiry and reload. A block template takes only transactions without time-to-live that are balanced, ready, within the size limit and do not spend what another one in the template spends.',
    over=['histories'],
    qtext='every sequence of offers, removals, expiries, reloads and template requests; every kind of input',
    why='Tests offer a few transactions to an empty pool; an index entry left behind or missed, or a rule bypassed for one input kind, shows only later as a transaction that can never be spent again, a double spend in a template, or a missing payment.',
    files=['src/CryptoNoteCore/TransactionPool.cpp', 'src/CryptoNoteCore/TransactionPool.h', 'src/CryptoNoteCore/Core.cpp'],
    mechanism=[('admission', 'tx_memory_pool::add_tx, core::add_new_tx'), ('mirror', 'tx_memory_pool::removeTransaction, addTransactionInputs, removeTransactionInputs, buildIndices'), ('expiry', 'tx_memory_pool::removeExpiredTransactions'), ('template', 'tx_memory_pool::fill_block_template, BlockTemplate')],
    state=[('pool', 'transactions offered and not in a block yet', 'tx_memory_pool::m_transactions'), ('spent by the pool', 'key images and outputs', 'm_spent_key_images, m_spentOutputs'), ('pool indexes', 'payment id, timestamp, time-to-live', 'm_paymentIdIndex, m_timestampIndex, m_ttlIndex')],
    observe=['acceptance of offered transactions', 'pool queries by payment id and time', 'transactions of a block template'],
    technique='path-sensitive guard domination, mirror analysis and per-element loop coverage over the CFG',
    level_note='Decides presence, order and coverage of checks and index updates on every path; clock arithmetic that wraps is not considered.',
)
MIN = 30
EXPLAIN = 'All CFG paths of the functions that add to, remove from, expire, reload and read the pool; obligations are one per admission check, per index and direction, per input kind and direction, and per template rule.'

P = 'cn::tx_memory_pool::'
MP = P + 'm_transactions'
VALID = ('cn::ITransactionValidator::*', 'cn::Currency::*', 'cn::get_outs_money_amount', 'logging::*', 'cn::parseTransactionExtra', 'cn::check_inputs_types_supported', 'cn::Blockchain::checkTransactionInputs', 'cn::Blockchain::haveSpentKeyImages', 'cn::Blockchain::checkTransactionSize')


def on(field, *names):
    return lambda ev: ev.kind == 'call' and ev.name in names and obj_is(ev, field)


class Entered(Rule):
    """after a successful insertion into the pool every index has its entry"""

    def __init__(self, E, m, keys, stop, steps, brs):
        self.E, self.m, self.keys, self.no_inline, self._s, self._b = E, m, keys, stop, steps, brs
        self.max_depth = 6
        self.init = frozenset()
        self.reset()

    def reset(self):
        self.sites, self.inserts = {}, set()

    def event(self, f, ev, st):
        if ev.kind == 'call' and ev.qn == 'std::move' and ev.args:
            return f | {('mv', strip(ev.args[0]))}
        if on('m_transactions', 'insert', 'emplace')(ev):
            self.inserts.add((ev.fn.id, ev.line))
            mv = {('gone', x[1]) for x in f if isinstance(x, tuple) and x[0] == 'mv' and any(strip(a) == x[1] for a in ev.args)}
            f = f | {'?'} | mv
        if ev.kind == 'write':
            f = f - {('gone', strip(ev.lhs))}
        for n, p in self._s.items():
            if p(ev):
                gone = [x[1] for x in f if isinstance(x, tuple) and x[0] == 'gone']
                if n == 'pid' and any(base(a) in gone for a in ev.args):
                    continue
                f = f | {n}
        return f

    def branch(self, f, a, p, ev):
        s = stripc(a)
        if s[0] == 'fld' and last(s[2]) == 'second' and self.m.call(s, 'insert', 'emplace') and self.m.fld(s, 'm_transactions'):
            return f - {'?', 'in'} | ({'in'} if p else frozenset())
        for n, q in self._b.items():
            if q(a, p):
                f = f | {n}
        return f

    def leave(self, f, kind, ret, ev, st):
        if kind != 'ret' or not ('?' in f or 'in' in f):
            return
        d = self.sites.setdefault((ev.fn.id, ev.line), {})
        for n in self._s:
            d.setdefault(n, None)
            if n not in f:
                d[n] = self.E.path(st) or ['entry']


def base(t):
    t = strip(t)
    while t[0] in ('fld', 'elem', 'idx', 'sub', 'deref') and isinstance(t[1], tuple):
        t = strip(t[1])
    return t


def conj(t):
    t = stripc(t)
    if t[0] == 'logic' and t[1] == '&&':
        return [y for x in t[2:] for y in conj(x)]
    return [t]


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'admission: the transaction reached the pool container only past each check')
    c.rule('R2', 'a transaction in the pool has its entry in every index')
    c.rule('R3', 'a transaction taken out of the pool has no entry left')
    c.rule('R4', 'the spent-input index covers every input, in both directions and in the query')
    c.rule('R5', 'block template')
    c.rule('R6', 'expiry takes exactly the transactions that are due')
    c.rule('R7', 'reload: indexes are rebuilt from the stored transactions, or everything is cleared')
    c.rule('R8', 'the outcome reported for an offer is the outcome')
    inp = lambda t: isf(t, 'inputs')
    boolp = lambda f: [v[3] for v in f.vars if v[2] == 'p' and f.types[v[1]] == 'bool']
    adders = [f for f in F.q(P + 'add_tx') if MP in f.names]
    tops = adders or [f for f in F.q(P + 'add_tx')]
    keys = {MP, P + 'm_spent_key_images', P + 'm_spentOutputs', P + 'm_paymentIdIndex', P + 'm_timestampIndex', P + 'm_ttlIndex', P + 'm_recentlyDeletedTransactions'}
    ins = on('m_transactions', 'insert', 'emplace')
    for fn in tops:
        KB = boolp(fn)
        kept = lambda a, p: p == 1 and any(m.param(strip(a), i) for i in KB) and stripc(a)[0] == 'param'
        TTL = lambda t: isf(t, 'ttl')
        nottl = lambda a, p: eq(a, p, TTL, lambda t: const_of(t) == 0) or truth_of(a, p, 'findTransactionExtraFieldByType') == 0
        now = lambda t: m.call(t, 'time', 'now')
        g = {
            'types': lambda a, p, ev: truth_of(a, p, 'check_inputs_types_supported') == 1,
            'balance': lambda a, p, ev: leq(a, p, lambda t: isc(t, 'get_outs_money_amount'), lambda t: isc(t, 'getTransactionAllInputsAmount')),
            'spent': lambda a, p, ev: kept(a, p) or truth_of(a, p, 'haveSpentInputs') == 0,
            'valid': lambda a, p, ev: kept(a, p) or truth_of(a, p, 'checkTransactionInputs') == 1,
            'size': lambda a, p, ev: kept(a, p) or truth_of(a, p, 'checkTransactionSize') == 1,
            'deleted': lambda a, p, ev: kept(a, p) or absent(a, p, lambda t: m.fld(t, 'm_recentlyDeletedTransactions')),
            'ttl1': lambda a, p, ev: kept(a, p) or nottl(a, p) or lt(a, p, lambda t: now(t) and noff(t) and not TTL(t), TTL),
            'ttl2': lambda a, p, ev: kept(a, p) or nottl(a, p) or leq(a, p, lambda t: m.fld(t, 'ttl'), lambda t: m.call(t, 'mempoolTxLiveTime') or m.call(t, 'blockFutureTimeLimit')),
            'ttl3': lambda a, p, ev: kept(a, p) or nottl(a, p) or eq(a, p, lambda t: m.call(t, 'getTransactionFee'), lambda t: const_of(t) == 0),
        }
        c.gates('R1', fn, keys, {
            'types': 'the input types are supported', 'balance': 'the inputs cover the outputs', 'spent': 'no input is spent by the pool (or kept for a block)', 'valid': 'the inputs are valid (or kept for a block)',
            'size': 'the size is allowed (or kept for a block)', 'deleted': 'it was not deleted recently (or kept for a block)', 'ttl1': 'its time-to-live has not passed', 'ttl2': 'its time-to-live is in range', 'ttl3': 'a transaction with time-to-live carries no fee'},
            br=g, targets=[('enter', ins, set(g))], no_inline=VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'), max_depth=4)
        steps = {
            'pid': lambda ev: on('m_paymentIdIndex', 'add')(ev) and (m.param(ev.args[0], 0) or m.fld(ev.args[0], 'tx')),
            'ts': on('m_timestampIndex', 'add'),
            'ttl': on('m_ttlIndex', 'emplace', 'insert', 'operator[]', 'insert_or_assign'),
            'inputs': lambda ev: ev.kind == 'call' and ev.name == 'addTransactionInputs',
        }
        text = {'pid': 'its payment id is indexed from the transaction itself (not from a moved-from copy)', 'ts': 'its timestamp is indexed', 'ttl': 'its time-to-live is indexed', 'inputs': 'its inputs are marked spent by the pool'}
        r = Entered(E, m, keys, VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'), steps, {'ttl': lambda a, p: nottl(a, p)})
        c.run(r, fn)
        if not r.inserts:
            c.broken('no insertion into the pool found')
        for (fid, line), d in sorted(r.sites.items()):
            for n, p in sorted(d.items()):
                f = F.fns[fid]
                (c.ok('R2', text[n], '%s in %s' % (f.loc(line), f.qn)) if p is None else c.bad('R2', text[n], '%s in %s' % (f.loc(line), f.qn), p, construct='%s in %s' % (n, fn.qn)))
        # outcome
        dup = lambda a, p, ev: p == 0 and stripc(a)[0] == 'fld' and last(stripc(a)[2]) == 'second' and m.fld(a, 'm_transactions')
        flagged(c, 'R8', fn, keys, VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'), dup)
        W = lambda n, ok: (lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == n and ev.rhs != FALSE and not ok(ev.rhs))
        vi = lambda t: any(isc(x, 'checkTransactionInputs') or x == FALSE for x in conj(t))
        c.gates('R8', fn, keys, {'valid': 'a transaction is to be relayed only if its inputs are valid'}, br={'valid': lambda a, p, ev: truth_of(a, p, 'checkTransactionInputs') == 1}, targets=[('relay', W('m_should_be_relayed', vi), {'valid'})], min_sites=0,
                no_inline=VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'))
        rec = lambda a, p: p == 1 and stripc(a)[0] == 'in' and m.fld(a, 'm_recentlyDeletedTransactions') or ne(a, p, lambda t: m.fld(t, 'm_recentlyDeletedTransactions') and isc(t, 'find'), lambda t: isc(t, 'end')) or m.fld(a, 'm_recentlyDeletedTransactions') and truth_of(a, p, 'count') == 1
        c.gates('R8', fn, keys, {'in': 'an offer succeeds only if the transaction and its inputs are in the pool'}, br={'in': lambda a, p, ev: truth_of(a, p, 'addTransactionInputs') == 1 or rec(a, p)}, exits=lambda k, r: {'in'} if succ(k, r) else None,
                no_inline=VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'))
        c.gates('R8', fn, keys, {'in': 'added to the pool is reported only for an entered transaction'}, br={'in': lambda a, p, ev: p == 1 and stripc(a)[0] == 'fld' and last(stripc(a)[2]) == 'second' and m.fld(a, 'm_transactions')}, targets=[('added', W('m_added_to_pool', lambda t: False), {'in'})],
                no_inline=VALID + (P + 'haveSpentInputs', P + 'addTransactionInputs'))
    for fn in F.q('cn::core::add_new_tx'):
        c.gates('R1', fn, {P + 'add_tx', 'cn::Blockchain::haveTransaction'}, {'chain': 'it is not in the chain', 'pool': 'it is not in the pool'}, br={'chain': lambda a, p, ev: truth_of(a, p, 'haveTransaction') == 0, 'pool': lambda a, p, ev: truth_of(a, p, 'have_tx') == 0},
                targets=[('offer', lambda ev: ev.kind == 'call' and ev.qn == P + 'add_tx', {'chain', 'pool'})], no_inline=('cn::Blockchain::haveTransaction', P + 'have_tx', P + 'add_tx'))
    # removal
    notclear = lambda ev: on('m_transactions', 'erase')(ev)
    rem = {'inputs': lambda ev: ev.kind == 'call' and ev.name == 'removeTransactionInputs', 'pid': on('m_paymentIdIndex', 'remove'), 'ts': on('m_timestampIndex', 'remove'), 'ttl': on('m_ttlIndex', 'erase')}
    rtext = {'inputs': 'its inputs are no longer marked spent', 'pid': 'its payment id is taken out of the index', 'ts': 'its timestamp is taken out of the index', 'ttl': 'its time-to-live is taken out of the index'}
    for fn in sorted((f for f in F.cls('cn::tx_memory_pool')), key=lambda f: f.qn):
        if fn.name in ('take_tx', 'removeExpiredTransactions'):
            c.gates('R3', fn, keys, rtext, ev=rem, br={'ttl': lambda a, p, ev: absent(a, p, lambda t: m.fld(t, 'm_ttlIndex'))}, targets=[('removal', notclear, set(rem))], no_inline=VALID + (P + 'removeTransactionInputs',),
                    fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, 'm_transactions', 'm_fee_index')) == 1)
    reach = set()
    for fn in F.q(P + 'take_tx') + F.q(P + 'removeExpiredTransactions'):
        reach |= callees(F, fn)
    for f in F.cls('cn::tx_memory_pool'):
        r = Calls(E, keys, VALID + (P + '*',), lambda ev: on('m_transactions', 'erase', 'pop_back')(ev))
        if MP in f.names:
            c.run(r, f)
            for ev in r.hits:
                c.check(f.id in reach, 'R3', 'transactions leave the pool by the functions checked here only', '%s in %s' % (f.loc(ev.line), f.qn), construct='erase in ' + f.qn)
    for fn in F.q(P + 'take_tx'):
        outs = {'tx': lambda ev: ev.kind == 'write' and m.param(ev.lhs, 1) and m.fld(ev.rhs, 'tx') or ev.kind == 'call' and ev.name == 'operator=' and m.param(ev.obj, 1),
                'size': lambda ev: ev.kind == 'write' and m.param(ev.lhs, 2) and m.fld(ev.rhs, 'blobSize'), 'fee': lambda ev: ev.kind == 'write' and m.param(ev.lhs, 3) and m.fld(ev.rhs, 'fee')}
        c.gates('R3', fn, keys, {'tx': 'a taken transaction is handed out', 'size': 'with its size', 'fee': 'with its fee', 'gone': 'and is no longer in the pool'}, ev=dict(outs, gone=lambda ev: notclear(ev)), exits=lambda k, r: {'tx', 'size', 'fee', 'gone'} if succ(k, r) else None, no_inline=VALID)
    # spent inputs
    keptp = lambda fn: (lambda a, p: p == 1 and any(m.param(strip(a), i) for i in boolp(fn)) and stripc(a)[0] == 'param')
    KI, MS = 'KeyInput', 'MultisignatureInput'
    k2 = {P + 'm_spent_key_images', P + 'm_spentOutputs'}
    img = lambda ev: m.fld(ev.obj, 'm_spent_key_images') and (m.fld(ev.obj, 'keyImage') or any(m.fld(a, 'keyImage') for a in ev.args))
    out = lambda ev: any(m.fld(a, 'outputIndex') and m.fld(a, 'amount') for a in ev.args) and obj_is(ev, 'm_spentOutputs')
    CALL = lambda *n: (lambda ev: ev.kind == 'call' and ev.name in n)
    for fn in F.q(P + 'addTransactionInputs'):
        kp = keptp(fn)
        c.each('R4', 'every key image is entered', fn, k2, inp, done=lambda ev: CALL('insert', 'emplace')(ev) and img(ev) and any(m.param(a, 0) for a in ev.args), done_br=lambda a, p, ev: not_type(a, p, KI) or is_type(a, p, MS), exits=succ)
        c.each('R4', 'every multisignature output is entered (or kept for a block)', fn, k2, inp, done=lambda ev: CALL('insert', 'emplace')(ev) and out(ev), done_br=lambda a, p, ev: not_type(a, p, MS) or is_type(a, p, KI) or kp(a, p), exits=succ)
    for fn in F.q(P + 'removeTransactionInputs'):
        kp = keptp(fn)
        c.each('R4', 'every key image is taken out', fn, k2, inp, done=lambda ev: CALL('erase')(ev) and img(ev), done_br=lambda a, p, ev: not_type(a, p, KI) or is_type(a, p, MS), exits=succ)
        follow(c, 'R4', 'a key image that no pool transaction uses any more has no entry', fn, k2, lambda ev: CALL('erase')(ev) and img(ev) and not obj_is(ev, 'm_spent_key_images'), lambda ev: CALL('erase')(ev) and obj_is(ev, 'm_spent_key_images'),
               done_br=lambda a, p, ev: p == 0 and (stripc(a)[0] == 'empty' or isc(a, 'empty')) and m.fld(a, 'm_spent_key_images') or ne(a, p, lambda t: (t[0] == 'size' or isc(t, 'size')) and m.fld(t, 'm_spent_key_images'), lambda t: const_of(t) == 0))
        c.each('R4', 'every multisignature output is taken out (or kept for a block)', fn, k2, inp, done=lambda ev: CALL('erase')(ev) and out(ev), done_br=lambda a, p, ev: not_type(a, p, MS) or is_type(a, p, KI) or kp(a, p), exits=succ)
    for fn in F.q(P + 'haveSpentInputs'):
        clean = lambda k, r: k == 'ret' and r != TRUE
        c.each('R4', 'an unspent verdict has looked up every key image', fn, k2, inp, done_br=lambda a, p, ev: not_type(a, p, KI) or is_type(a, p, MS) or absent(a, p, lambda t: m.fld(t, 'm_spent_key_images')) and m.fld(a, 'keyImage'), exits=clean)
        c.each('R4', 'an unspent verdict has looked up every multisignature output', fn, k2, inp, done_br=lambda a, p, ev: not_type(a, p, MS) or is_type(a, p, KI) or absent(a, p, lambda t: m.fld(t, 'm_spentOutputs')) and m.fld(a, 'outputIndex') and m.fld(a, 'amount'), exits=clean)
    # template
    kt = {'cn::BlockTemplate::m_txHashes', 'cn::BlockTemplate::m_keyImages', 'cn::BlockTemplate::m_usedOutputs'} | {P + 'm_fee_index', P + 'is_transaction_ready_to_go', MP, 'cn::ITransactionValidator::haveSpentKeyImages', 'cn::ITransactionValidator::checkTransactionInputs'}
    for fn in F.q(P + 'fill_block_template'):
        cont = lambda t: isf(t, 'm_fee_index', 'm_transactions')
        g = {
            'ttl': lambda a, p, ev: absent(a, p, lambda t: m.fld(t, 'm_ttlIndex')),
            'balance': lambda a, p, ev: leq(a, p, lambda t: isc(t, 'get_outs_money_amount'), lambda t: isc(t, 'getTransactionAllInputsAmount')),
            'size': lambda a, p, ev: leq(a, p, lambda t: m.fld(t, 'blobSize') and sum(1 for k, v in lin(t).items() if k != 1 and v > 0) > 1, lambda t: noff(t) and not m.fld(t, 'blobSize') and (m.param(t, 1) or m.param(t, 2))),
            'inputs': lambda a, p, ev: truth_of(a, p, 'checkTransactionInputs') == 1,
            'chain': lambda a, p, ev: truth_of(a, p, 'haveSpentKeyImages') == 0,
        }
        app = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and m.fld(ev.obj, 'm_txHashes', 'transactionHashes')
        c.gates('R5', fn, kt, {'ttl': 'a template transaction has no time-to-live', 'balance': 'its inputs cover its outputs', 'size': 'it fits the size limit', 'inputs': 'its inputs are valid', 'chain': 'its inputs are not spent on the chain'}, br=g,
                targets=[('append', app, set(g))], fresh=lambda a, p, ev: loop_more(E, a, p, cont) == 1, no_inline=VALID)
        one = lambda a, p, ev: truth_of(a, p, 'addTransaction')
        for i, f, w in ((4, 'blobSize', 'size'), (5, 'fee', 'fee')):
            c.forall('R5', 'the %s of an included transaction is accounted' % w, fn, kt, one, lambda ev, i=i, f=f: ev.kind == 'write' and (ev.op == '+=' or ev.op == '=' and stripc(ev.rhs)[0] == 'op' and stripc(ev.rhs)[1] == '+') and m.fld(ev.rhs, f), no_inline=VALID + ('cn::BlockTemplate::addTransaction',))
    for fn in F.q('cn::BlockTemplate::addTransaction'):
        c.each('R5', 'no two template transactions share a key image', fn, kt, inp, done_br=lambda a, p, ev: not_type(a, p, KI) or is_type(a, p, MS) or absent(a, p, lambda t: m.fld(t, 'm_keyImages')), exits=succ, some=True)
        c.each('R5', 'no two template transactions share a multisignature output', fn, kt, inp, done_br=lambda a, p, ev: not_type(a, p, MS) or is_type(a, p, KI) or absent(a, p, lambda t: m.fld(t, 'm_usedOutputs')), exits=succ, some=True)
        c.each('R5', 'the key images of a template transaction are remembered', fn, kt, inp, done=lambda ev: CALL('insert', 'emplace')(ev) and m.fld(ev.obj, 'm_keyImages'), done_br=lambda a, p, ev: not_type(a, p, KI) or is_type(a, p, MS), exits=succ, some=True)
        c.each('R5', 'the multisignature outputs of a template transaction are remembered', fn, kt, inp, done=lambda ev: CALL('insert', 'emplace')(ev) and m.fld(ev.obj, 'm_usedOutputs'), done_br=lambda a, p, ev: not_type(a, p, MS) or is_type(a, p, KI), exits=succ, some=True)
    # expiry
    for fn in F.q(P + 'removeExpiredTransactions'):
        cont = lambda t: isf(t, 'm_transactions', 'm_fee_index')
        live = lambda t: m.call(t, 'mempoolTxLiveTime', 'mempoolTxFromAltBlockLiveTime') and noff(t)
        age = lambda t: m.fld(t, 'receiveTime')
        ttl = lambda t: m.fld(t, 'm_ttlIndex') and isf(t, 'second')
        tnow = lambda t: m.call(t, 'now', 'time') and not m.fld(t, 'receiveTime') and not isf(t, 'second')
        gone = lambda ev: notclear(ev)
        end = lambda k, r: k == 'ret'
        c.each('R6', 'a transaction that is too old is removed', fn, keys, cont, done=gone, done_br=lambda a, p, ev: leq(a, p, age, live), exits=end, no_inline=VALID)
        c.each('R6', 'a transaction whose time-to-live has passed is removed', fn, keys, cont, done=gone, done_br=lambda a, p, ev: absent(a, p, lambda t: m.fld(t, 'm_ttlIndex')) or lt(a, p, tnow, ttl), exits=end, no_inline=VALID)
        c.gates('R6', fn, keys, {'due': 'only a transaction that is due is removed', 'noted': 'a removed transaction is remembered as deleted'}, br={'due': lambda a, p, ev: lt(a, p, live, age) or leq(a, p, ttl, tnow)}, ev={'noted': lambda ev: CALL('emplace', 'insert', 'operator[]')(ev) and obj_is(ev, 'm_recentlyDeletedTransactions')},
                targets=[('removal', gone, {'due', 'noted'})], fresh=lambda a, p, ev: loop_more(E, a, p, cont) == 1, no_inline=VALID)
        c.gates('R6', fn, keys, {'old': 'a deleted transaction is forgotten only after the forgetting time'}, br={'old': lambda a, p, ev: lt(a, p, lambda t: m.call(t, 'mempoolTxLiveTime') and m.call(t, 'numberOfPeriodsToForgetTxDeletedFromPool') and noff(t), lambda t: m.fld(t, 'm_recentlyDeletedTransactions'))},
                targets=[('forget', on('m_recentlyDeletedTransactions', 'erase'), {'old'})], fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, 'm_recentlyDeletedTransactions')) == 1, no_inline=VALID, min_sites=0)
    # reload
    for fn in F.q(P + 'buildIndices'):
        cont = lambda t: isf(t, 'm_transactions', 'm_fee_index')
        end = lambda k, r: k == 'ret'
        c.each('R7', 'the payment id of every stored transaction is indexed', fn, keys, cont, done=on('m_paymentIdIndex', 'add'), exits=end)
        c.each('R7', 'the timestamp of every stored transaction is indexed', fn, keys, cont, done=on('m_timestampIndex', 'add'), exits=end)
        c.each('R7', 'the time-to-live of every stored transaction is indexed', fn, keys, cont, done=on('m_ttlIndex', 'emplace', 'insert', 'operator[]'), done_br=lambda a, p, ev: truth_of(a, p, 'findTransactionExtraFieldByType') == 0 or eq(a, p, lambda t: isf(t, 'ttl'), lambda t: const_of(t) == 0), exits=end)
    for fn in F.q(P + 'init'):
        S = ('m_transactions', 'm_spent_key_images', 'm_spentOutputs', 'm_paymentIdIndex', 'm_timestampIndex', 'm_ttlIndex')
        nofile = lambda a, p: truth_of(a, p, 'exists') == 0
        loaded = lambda a, p: truth_of(a, p, 'loadFromBinaryFile') == 1
        failed = lambda a, p: truth_of(a, p, 'loadFromBinaryFile') == 0
        g = {s: (lambda a, p, ev: nofile(a, p) or loaded(a, p)) for s in S}
        g['built'] = lambda a, p, ev: nofile(a, p) or failed(a, p)
        evs = {s: (lambda ev, s=s: ev.kind == 'call' and ev.name == 'clear' and obj_is(ev, s) or ev.kind == 'write' and isf(ev.lhs, s)) for s in S}
        evs['built'] = lambda ev: ev.kind == 'call' and ev.name == 'buildIndices'
        c.gates('R7', fn, keys, dict({s: 'a pool that cannot be loaded starts with an empty %s' % s for s in S}, built='the indexes of a loaded pool are built'), br=g, ev=evs, exits=lambda k, r: set(g) if k == 'ret' else None, no_inline=VALID + ('cn::loadFromBinaryFile', P + 'buildIndices', P + 'removeExpiredTransactions'))
