"""The wallet's view of blocks and pool transactions: every one is looked at, in order, for every account."""
from .common import *
from sa.engine import param_types
from .c17 import Hits
from .c18 import lams
from .c21 import owner, Values

TC = 'cn::TransfersConsumer::'
TS = 'cn::TransfersSubscription::'
TR = 'cn::TransfersContainer::'

META = dict(
    title='Every transaction of a new block or of the pool reaches every account once',
    statement='Every transaction of a batch of blocks (from the first block after the creation of the accounts on) is scanned for outputs of the accounts, and all are then applied to every account in the order of the chain; a batch counts as processed, and the heights advance, only if no step failed, and after a failure every account is rolled back and told. A transaction that an account knows from the pool is confirmed, an unknown one added, and a known confirmed one left alone; pool transactions that vanish are forgotten and deleted. An output whose one-time key was seen in another transaction is not credited, and every change is announced.',
    over=['inputs', 'schedules', 'histories'],
    qtext='every batch of blocks, every update of the pool and every schedule of the scanning threads',
    why='A transaction that is skipped, applied twice or applied out of order shows a wrong balance; tests use few blocks and one account.',
    files=['src/Transfers/TransfersConsumer.cpp', 'src/Transfers/TransfersConsumer.h', 'src/Transfers/TransfersSubscription.cpp', 'src/Common/BlockingQueue.h'],
    mechanism=[('scanning blocks', 'TransfersConsumer::onNewBlocks'), ('following the pool', 'TransfersConsumer::onPoolUpdated'), ('finding outputs', 'TransfersConsumer::preprocessOutputs, createTransfers'), ('applying', 'TransfersConsumer::processTransaction, processOutputs'), ('one account', 'TransfersSubscription')],
    state=[('accounts', 'the accounts of one view key', 'TransfersConsumer::m_subscriptions'), ('known pool transactions', 'not asked for again', 'TransfersConsumer::m_poolTxs'), ('seen keys', 'one-time keys of credited outputs', 'public_keys_seen')],
    observe=['balances and transactions of an account', 'notifications'],
    technique='gate, follow-up and per-element analysis over the CFG, with the worker functions as entries of their own',
    level_note='Decides the steps on every path; thread library, scanning cryptography and the node are trusted. Duplicate detection inside one transaction is not decided for key outputs.',
)
MIN = 25
EXPLAIN = 'Every CFG path of the consumer, its workers and the subscriptions; obligations are one per transaction step, per walk over accounts, blocks or transactions, per exit and per notification.'


def HERE(f):
    return any(f.rel().endswith('Transfers/%s.%s' % (a, b)) for a in ('TransfersConsumer', 'TransfersSubscription') for b in ('cpp', 'h')) and 'BlockingQueue' not in f.qn


def lin(t):
    """linear form of an integer term: {atom: factor}, with None for the constant"""
    t = stripc(strip(t))
    k = const_of(t)
    if isinstance(k, int):
        return {None: k} if k else {}
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) > 3:
        a, b = lin(t[2]), lin(t[3])
        for x, n in b.items():
            a[x] = a.get(x, 0) + (n if t[1] == '+' else -n)
        return {x: n for x, n in a.items() if n}
    if isc(t, 'operator+', 'operator-') and t[2] is not None and len(t[3]) == 1:
        return lin(('op', last(t[1])[8:], t[2], t[3][0]))
    return {t: 1}


def is_lin(t, const, *preds):
    """the term is a sum of one atom per predicate (a pair (predicate, factor) or a predicate) and a constant"""
    d = lin(t)
    if d.pop(None, 0) != const or len(d) != len(preds):
        return False
    for p in preds:
        p, n = p if isinstance(p, tuple) else (p, 1)
        hit = [x for x in d if d[x] == n and p(x)]
        if not hit:
            return False
        del d[hit[0]]
    return True


def ec(a, p, pred=lambda t: True):
    """truth value of an error code"""
    x = strip(a)
    if isc(x, 'operator bool') and x[2] is not None and pred(x[2]):
        return p
    if p == 1 and x[0] == 'cmp' and x[1] in ('==', '!=') and any(str(u[1]).endswith('error_code') and u[0] == 'ctor' and pred(v) for u, v in ((x[2], x[3]), (x[3], x[2]))):
        return 1 if x[1] == '!=' else 0
    return None


def told(name):
    """an observer is notified of the event"""
    return lambda ev: ev.kind == 'call' and ev.name == 'notify' and any('::' + name in str(a) for a in ev.args)


def sized(F, prefix, *called):
    """functions of a class (and their lambdas) that call one of these"""
    return [f for f in F.fns.values() if (f.id.startswith(prefix) or f.qn.startswith(prefix)) and any(last(n) == x or n == x for n in f.names for x in called)]


def check(c):
    F, E, m = c.F, c.E, c.m
    K = HERE
    c.rule('R1', 'every transaction of every block is handed to the workers, with its height and its place')
    c.rule('R2', 'every transaction taken by a worker is kept or fails the batch, and no failure of a worker is lost')
    c.rule('R3', 'the transactions are applied in order and only without error; then every account advances, else every account is rolled back')
    c.rule('R4', 'a transaction is applied to every account: confirmed, added or left alone')
    c.rule('R5', 'pool transactions are applied and remembered; vanished ones are forgotten and deleted')
    c.rule('R6', 'outputs are credited with their own data, within bounds, and never for a key seen elsewhere')
    c.rule('R7', 'every account is detached, and every change of an account is announced')
    c.rule('R8', 'the queue between the threads loses nothing, waits for no one who is gone, and is closed at the end')
    f = {n: F.q1(TC + n) for n in ('onNewBlocks', 'onPoolUpdated', 'onBlockchainDetach', 'preprocessOutputs', 'processOutputs', 'addUnconfirmedTransaction', 'removeUnconfirmedTransaction', 'addSubscription', 'removeSubscription', 'initTransactionPool', 'updateSyncStart')}
    pts = F.q(TC + 'processTransaction')
    loud = [x for x in pts if TC + 'preprocessOutputs' in x.names]
    quiet = [x for x in pts if TC + 'processOutputs' in x.names]
    if len(loud) != 1 or len(quiet) != 1:
        c.broken('TransfersConsumer::processTransaction not found')
    UNC = lambda t: m.glob(t, 'WALLET_UNCONFIRMED_TRANSACTION_HEIGHT', 'WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT')
    unc = lambda x: (lambda a, p, ev: eq(a, p, x, UNC))
    cnf = lambda x: (lambda a, p, ev: ne(a, p, x, UNC))
    hgt = lambda t: isf(t, 'height') and not m.fld(t, 'm_syncStart')
    nm = lambda f: '%s in %s' % (f.loc(), f.qn)
    # R1
    pushers = sized(F, TC + 'onNewBlocks', 'BlockingQueue::push')
    c.check(len(pushers) == 1, 'R1', 'one function hands the transactions out', nm(f['onNewBlocks']), construct='pushing function')
    for g in pushers:
        push = lambda ev: ev.kind == 'call' and ev.qn == 'BlockingQueue::push' or ev.kind == 'call' and ev.name == 'push' and 'Queue' in str(ev.obj)
        nokey = lambda a, p, ev: eq(a, p, lambda t: isc(t, 'getTransactionPublicKey'), lambda t: m.glob(t, 'NULL_PUBLIC_KEY'))
        txs = lambda t: isf(t, 'transactions')
        c.each('R1', 'every transaction of the block is handed to the workers, or has no key', g, K, txs, done=push, done_br=nokey, exits=lambda k, r: False)
        old = lambda a, p, ev: lt(a, p, lambda t: isf(t, 'timestamp') and m.fld(t, 'block'), lambda t: isf(t, 'timestamp') and m.fld(t, 'm_syncStart'))
        gone = lambda a, p, ev: truth_of(a, p, 'is_initialized', 'operator bool') == 0 and m.fld(a, 'block') or truth_of(a, p, 'is_none') == 1 or flag(a, p, lambda t: isf(t, 'block')) == 0
        cnt = lambda t: strip(t)[0] in ('var', 'param', 'obj') and strip(t)[1].split('@')[0] == 'count' if isinstance(strip(t)[1], str) else False
        blk = lambda a, p, ev: lt(a, p, lambda t: strip(t)[0] == 'phi', lambda t: 'count' in str(t)) or ne(a, p, lambda t: strip(t)[0] == 'phi', cnt)
        stop = lambda a, p, ev: flag(a, p, lambda t: 'stopProcessing' in str(t)) == 1
        follow(c, 'R1', 'the transactions of every block are looked at, unless the block is absent or older than the accounts', g, K, None, done=lambda ev: False, done_br=lambda a, p, ev: gone(a, p, ev) or old(a, p, ev) or loop_more(E, a, p, txs) is not None or stop(a, p, ev), trig_br=blk)
        c.gates('R1', g, K, {'all': 'all blocks were handed out, or processing stopped', 'close': 'the queue is closed'}, br={'all': lambda a, p, ev: stop(a, p, ev) or leq(a, p, cnt, lambda t: strip(t)[0] == 'phi') or eq(a, p, cnt, lambda t: strip(t)[0] == 'phi')}, ev={'close': lambda ev: ev.kind == 'call' and ev.name == 'close'},
                exits=lambda k, r: {'all', 'close'} if k == 'ret' else None, min_sites=1)
        nxt = lambda a, p, ev: loop_more(E, a, p, txs) == 1
        inc = lambda ev: ev.kind == 'write' and isf(ev.lhs, 'transactionIndex') and (ev.op in ('++', '+=') or ev.op == '=' and const_of(ev.rhs) is None)
        follow(c, 'R1', 'the place of the next transaction is one further', g, K, None, done=inc, trig_br=nxt)
        setup = {'h': lambda ev: writes('height')(ev) and is_lin(ev.rhs, 0, lambda t: 'startHeight' in str(t), lambda t: t[0] == 'phi'), 't': lambda ev: writes('timestamp')(ev) and m.fld(ev.rhs, 'timestamp'), 'i': lambda ev: writes('transactionIndex')(ev) and const_of(ev.rhs) == 0, }
        c.gates('R1', g, K, {'h': 'it has the height of its block', 't': 'it has the time of its block', 'i': 'places count from the first transaction of the block'}, ev=setup, kills={x: lambda ev: ev.kind == 'write' and ev.op in ('++', '+=') and strip(ev.lhs)[0] == 'var' for x in 'hti'},
                targets=[('transaction handed out', push, {'h', 't', 'i'})], min_sites=1)
    # R2
    poppers = sized(F, TC + 'onNewBlocks', 'BlockingQueue::pop')
    c.check(len(poppers) >= 1, 'R2', 'a function takes the transactions', nm(f['onNewBlocks']), construct='popping function')
    NP = (TC + 'preprocessOutputs',)
    for g in poppers:
        popped = lambda a, p, ev: truth_of(a, p, 'pop') == 1
        pre = calls(TC + 'preprocessOutputs')
        keep = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None
        perr = lambda t: m.call(t, 'preprocessOutputs')
        follow(c, 'R2', 'a transaction that was taken is scanned', g, K, None, done=pre, trig_br=popped, no_inline=NP)
        follow(c, 'R2', 'a scanned transaction is kept, or its error ends the work', g, K, pre, done=keep, done_br=lambda a, p, ev: ec(a, p, perr) == 1, no_inline=NP)
        c.gates('R2', g, K, {'ok': 'it was scanned without error', 'lock': 'the results are locked'}, br={'ok': lambda a, p, ev: ec(a, p, perr) == 0}, ev={'lock': lambda ev: ev.kind == 'decl' and any(x in str(ev.type) for x in ('lock_guard', 'unique_lock'))}, kills={'ok': pre, 'lock': lambda ev: ev.kind == 'dtor' and any(x in str(ev.type) for x in ('lock_guard', 'unique_lock'))},
                targets=[('transaction kept', keep, {'ok', 'lock'})], no_inline=NP, min_sites=1)
        halt = lambda ev: ev.kind in ('write', 'call') and 'stopProcessing' in str(ev.lhs if ev.kind == 'write' else ev.obj) and (ev.kind == 'write' or ev.name in ('store', 'operator='))
        follow(c, 'R2', 'an error stops the other workers', g, K, None, done=halt, trig_br=lambda a, p, ev: ec(a, p, perr) == 1, no_inline=NP)
        v = Values(E)
        rets = []

        class Ret(Rule):
            init = 0

            def __init__(self):
                self.E, self.keys, self.no_inline = E, K, NP

            def branch(self, s, a, p, ev):
                return {1: 1, 0: 0}.get(ec(a, p, perr), s)

            def leave(self, s, kind, ret, ev, st):
                if self.final and kind == 'ret':
                    rets.append((s, ret, ev.line))
        c.run(Ret(), g)
        for s, ret, line in rets:
            if s:
                c.check(strip(ret)[0] == 'phi' or perr(ret) or strip(ret)[0] in ('var', 'obj'), 'R2', 'the error is returned', '%s in %s' % (g.loc(line), g.qn), construct='worker returns its error')
    g = f['onNewBlocks']
    NN = (TC + 'processTransaction', TS + 'onError', TS + 'advanceHeight') + tuple(x.id for x in pushers + poppers)
    own = lambda t: 'error_code' in str(strip(t)[2]) if strip(t)[0] == 'var' else strip(t)[0] in ('phi', 'obj')
    got = lambda t: isc(t, 'get')
    put = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] in ('var', 'obj') and 'error_code' in str(strip(ev.lhs)[2]) or ev.kind == 'call' and ev.name in ('operator=', 'assign') and ev.obj is not None and 'error_code' in str(ev.obj)
    follow(c, 'R2', 'the error of a worker is kept', g, K, None, done=put, done_br=lambda a, p, ev: ec(a, p, lambda t: not got(t)) == 1, trig_br=lambda a, p, ev: ec(a, p, got) == 1, no_inline=NN, exc='try')
    follow(c, 'R2', 'an exception of a worker is kept as an error', g, K, lambda ev: ev.kind == 'catch', done=put, no_inline=NN, exc='try')
    get = lambda ev: ev.kind == 'call' and ev.name == 'get' and ev.obj is not None and not m.fld(ev.obj, 'm_subscriptions')
    follow(c, 'R2', 'the result of every worker is looked at', g, K, get, done=lambda ev: ev.kind == 'catch', done_br=lambda a, p, ev: ec(a, p) == 1 or ec(a, p, got) == 0, no_inline=NN, exc='try', exits=lambda k, r: k == 'ret')
    workers = lambda t: strip(t)[0] in ('obj', 'var') and 'future' in str(strip(t)[2])
    c.each('R2', 'every worker is awaited', g, K, workers, done=get, exits=lambda k, r: k == 'ret', no_inline=NN, exc='explicit')
    # R3
    noerr = lambda a, p, ev: ec(a, p, lambda t: not got(t)) == 0
    proc = calls(TC + 'processTransaction')
    res = lambda t: strip(t)[0] in ('obj', 'var') and 'Preprocessed' in str(strip(t)[2])
    sorted_ = lambda ev: ev.kind == 'call' and ev.name in ('sort', 'stable_sort') and len(ev.args) > 1 and isc(ev.args[0], 'begin') and isc(ev.args[1], 'end') and all(any(res(x) for x in subterms(a)) for a in ev.args[:2])
    done_all = lambda a, p, ev: loop_more(E, a, p, res) == 0
    adv, err = calls(TS + 'advanceHeight'), calls(TS + 'onError')
    subs = lambda t: isf(t, 'm_subscriptions')
    c.gates('R3', g, K, {'ok': 'no worker failed', 'sort': 'the transactions are in order', 'all': 'all transactions were applied'}, br={'ok': noerr, 'all': done_all}, ev={'sort': sorted_}, kills={'ok': put},
            targets=[('transaction applied', proc, {'ok', 'sort'}), ('height advanced', adv, {'ok', 'all'})], exits=lambda k, r: {'ok', 'all', 'sort'} if k == 'ret' and r != FALSE else None, no_inline=NN, min_sites=3)
    c.each('R3', 'every scanned transaction is applied', g, K, res, done=proc, exits=lambda k, r: False, no_inline=NN)
    c.each('R3', 'every account advances after a success, or is told of the error', g, K, subs, done=lambda ev: adv(ev) or err(ev), exits=lambda k, r: k == 'ret', no_inline=NN)
    c.gates('R3', g, K, {'adv': 'the accounts advanced', 'err': 'the accounts were told', 'no': 'a worker failed'}, br={'adv': lambda a, p, ev: loop_more(E, a, p, subs) == 0, 'err': lambda a, p, ev: loop_more(E, a, p, subs) == 0, 'no': lambda a, p, ev: ec(a, p, lambda t: not got(t)) == 1},
            targets=[('error told', err, {'no'})], exits=lambda k, r: {'adv'} if k == 'ret' and r != FALSE else {'err', 'no'} if k == 'ret' else None, no_inline=NN, min_sites=2)
    hh = Hits(E, K, lambda ev: adv(ev) or err(ev), no_inline=NN)
    c.run(hh, g)
    for ev in hh.hits:
        if adv(ev):
            ok = is_lin(ev.args[0], -1, lambda t: t[0] == 'param' and t[1] == 1, lambda t: t[0] == 'param' and t[1] == 2)
        else:
            ok = is_lin(ev.args[1], 0, lambda t: t[0] == 'param' and t[1] == 1)
        c.check(ok, 'R3', 'the height is that of the last block, or of the first one after an error', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='height of %s in onNewBlocks' % ev.name)
    hh = Hits(E, K, sorted_, no_inline=NN)
    c.run(hh, g)
    for x in {F.fns[t] for ev in hh.hits for t in lams(ev.args[-1]) if t in F.fns}:
        rr = []

        class Cmp(Rule):
            init = 0

            def __init__(self):
                self.E, self.keys = E, K

            def leave(self, s, kind, ret, ev, st):
                if self.final and kind == 'ret':
                    rr.append(ret)
        c.run(Cmp(), x)
        ok = all(any(last(n) == y for n in x.names) for y in ('height', 'transactionIndex'))
        for r in rr:
            ts = [y for y in subterms(r) if isc(y, 'tie', 'make_tuple', 'forward_as_tuple', 'make_pair')]
            if len(ts) == 2:
                side = lambda t, i: len(t[3]) >= 2 and isf(t[3][0], 'height') and isf(t[3][1], 'transactionIndex') and all(any(q[0] == 'param' and q[1] == i for q in subterms(z)) for z in t[3][:2])
                k = strip(r)
                lo, hi = (k[2], k[3]) if k[0] == 'cmp' and k[1] == '<' else (ts[0], ts[1])
                lo, hi = [next((y for y in subterms(z) if y in ts), z) for z in (lo, hi)]
                ok = ok and side(lo, 0) and side(hi, 1)
        c.check(ok, 'R3', 'the order is that of heights, then of places', nm(x), construct='order of transactions')
    # R4
    g = quiet[0]
    po = calls(TC + 'processOutputs')
    NQ = (TC + 'processOutputs',)
    c.each('R4', 'the transaction is applied to every account', g, K, subs, done=po, no_inline=NQ)
    hh = Hits(E, K, po, no_inline=NQ)
    c.run(hh, g)
    for ev in hh.hits:
        a = ev.args[3]
        c.check(m.fld(a, 'outputs') or strip(a)[0] in ('obj', 'var', 'phi', 'cond'), 'R4', 'the account gets its own outputs', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='outputs in processTransaction')
    mine = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find') and m.fld(t, 'outputs'), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1 and m.fld(a, 'outputs')
    other = lambda a, p, ev: eq(a, p, lambda t: isc(t, 'find') and m.fld(t, 'outputs'), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 0 and m.fld(a, 'outputs')
    begin = lambda a, p, ev: loop_more(E, a, p, subs) == 1
    c.gates('R4', g, K, {'mine': 'it has outputs in the transaction', 'other': 'it has none'}, br={'mine': mine, 'other': other}, fresh=begin, targets=[('account with outputs', lambda ev: po(ev) and m.fld(ev.args[3], 'outputs'), {'mine'}), ('account without outputs', lambda ev: po(ev) and not m.fld(ev.args[3], 'outputs') and strip(ev.args[3])[0] == 'obj', {'other'})], no_inline=NQ, min_sites=1)
    bools = [j for j, t in enumerate(param_types(f['processOutputs'].id)) if t == 'bool &']

    def leaf(a, p, j):
        if a[0] == 'logic' and a[1] == '||' and p == 1:
            xs = [x for x in a[2:] if x != FALSE]
            return len(xs) == 1 and leaf(xs[0], 1, j)
        return flag(a, p, lambda t: t[0] == 'out' and last(t[1]) == 'processOutputs' and t[2] == j) == 1
    if len(bools) == 2:
        names_ = [v[0].lower() for v in f['processOutputs'].vars if v[2] == 'p' and v[3] in bools]
        for j, n in zip(bools, names_):
            if 'updated' in n:
                ors = Hits(E, K, lambda ev: ev.kind == 'write' and ev.op == '|=' and leaf(ev.rhs, 1, j), no_inline=NQ)
                c.run(ors, g)
                follow(c, 'R4', 'a change of any account is announced', g, K, None, done=told('onTransactionUpdated'), trig_br=lambda a, p, ev: leaf(a, p, j), no_inline=NQ, again=True, min_trigs=0 if ors.hits else 1)
                hh = Hits(E, K, told('onTransactionUpdated'), no_inline=NQ)
                c.run(hh, g)
                c.check(bool(hh.hits), 'R4', 'a change is announced', nm(g), construct='announcement of processTransaction')
            elif 'contain' in n:
                follow(c, 'R4', 'every account that has the transaction is announced', g, K, None, done=lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'emplace') and ev.obj is not None and strip(ev.obj)[0] == 'obj', trig_br=lambda a, p, ev: leaf(a, p, j), no_inline=NQ)
    g = f['processOutputs']
    mark, add = calls(TS + 'markTransactionConfirmed'), calls(TS + 'addTransaction')
    NO = (TS + 'markTransactionConfirmed', TS + 'addTransaction', TR + 'getTransactionInformation')
    known = lambda v: (lambda a, p, ev: truth_of(a, p, 'getTransactionInformation') == v or flag(a, p, lambda t: m.call(t, 'getTransactionInformation')) == v)
    ctx_h = lambda t: isf(t, 'blockHeight')
    c.gates('R4', g, K, {'kn': 'the account knows the transaction', 'new': 'the account does not know the transaction', 'unc': 'it was unconfirmed so far', 'cnf': 'it is in a block now'}, br={'kn': known(1), 'new': known(0), 'unc': unc(ctx_h), 'cnf': cnf(hgt)},
            targets=[('confirmed', mark, {'kn', 'unc', 'cnf'}), ('added', add, {'new'})], no_inline=NO, min_sites=2)
    c.gates('R4', g, K, {'done': 'it was added, confirmed, or known as it is'}, ev={'done': lambda ev: mark(ev) or add(ev)}, br={'done': lambda a, p, ev: cnf(ctx_h)(a, p, ev) or unc(hgt)(a, p, ev)}, exits=lambda k, r: {'done'} if k == 'ret' else None, no_inline=NO, min_sites=1)
    bools = [v for v in g.vars if v[2] == 'p' and g.types[v[1]] == 'bool &']
    outp = lambda n: (lambda ev: ev.kind == 'write' and ev.slot in {v[4] for v in bools if n in v[0].lower()})
    hh = Hits(E, K, lambda ev: mark(ev) or add(ev), no_inline=NO)
    c.run(hh, g)
    for ev in hh.hits:
        own_ = m.param(ev.args[0]) and (mark(ev) and isc(ev.args[1], 'getTransactionHash') and m.param(ev.args[2]) or add(ev) and m.param(ev.args[1]) and m.param(ev.args[2]))
        c.check(own_, 'R4', 'it is applied with its own block, outputs and indexes', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='arguments of %s' % ev.name)
    if any('contain' in v[0].lower() for v in bools) and any('updated' in v[0].lower() for v in bools):
        follow(c, 'R4', 'a confirmed transaction is reported as updated', g, K, mark, done=lambda ev: outp('updated')(ev) and ev.rhs == TRUE, no_inline=NO)
        follow(c, 'R4', 'an added transaction is reported as updated', g, K, add, done=lambda ev: outp('updated')(ev) and m.call(ev.rhs, 'addTransaction'), no_inline=NO)
        follow(c, 'R4', 'an added transaction is reported as contained', g, K, add, done=lambda ev: outp('contain')(ev) and m.call(ev.rhs, 'addTransaction'), no_inline=NO)
    # every transaction is scanned and applied when it comes from the pool
    g = loud[0]
    NL = (TC + 'preprocessOutputs', TC + 'processOutputs')
    scan = lambda t: m.call(t, 'preprocessOutputs')
    c.gates('R5', g, K, {'scan': 'it was scanned without error', 'bad': 'scanning failed', 'all': 'it was applied to every account'}, br={'scan': lambda a, p, ev: ec(a, p, scan) == 0, 'bad': lambda a, p, ev: ec(a, p, scan) == 1, 'all': lambda a, p, ev: loop_more(E, a, p, subs) == 0 or ec(a, p, scan) == 1},
            targets=[('applied', po, {'scan'})], exits=lambda k, r: {'all'} if k == 'ret' else None, no_inline=NL, min_sites=2)
    errs = []

    class Err(Rule):
        init = 0

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, NL

        def branch(self, s, a, p, ev):
            return {1: 1, 0: 2}.get(ec(a, p, scan), s)

        def leave(self, s, kind, ret, ev, st):
            if self.final and kind == 'ret':
                errs.append((s, ret, ev.line))
    c.run(Err(), g)
    for s, ret, line in errs:
        c.check(s != 1 or scan(ret), 'R5', 'the error of scanning is returned', '%s in %s' % (g.loc(line), g.qn), construct='error of processTransaction')
    # R5
    g = f['onPoolUpdated']
    NU = (TC + 'processTransaction', TS + 'onError', TS + 'deleteUnconfirmedTransaction')
    remember = lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and ev.obj is not None and isf(ev.obj, 'm_poolTxs')
    forget = lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and isf(ev.obj, 'm_poolTxs')
    delete = calls(TS + 'deleteUnconfirmedTransaction')
    added = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 0
    deleted = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 1
    perr = lambda t: m.call(t, 'processTransaction')
    c.each('R5', 'every new pool transaction is applied', g, K, added, done=proc, exits=lambda k, r: False, no_inline=NU)
    c.each('R5', 'every new pool transaction is remembered', g, K, added, done=remember, exits=lambda k, r: False, no_inline=NU)
    c.each('R5', 'every vanished pool transaction is forgotten', g, K, deleted, done=forget, exits=lambda k, r: False, no_inline=NU)
    c.gates('R5', g, K, {'a': 'all new transactions were applied', 'd': 'all vanished transactions were deleted'}, br={'a': lambda a, p, ev: loop_more(E, a, p, added) == 0 or ec(a, p, perr) == 1, 'd': lambda a, p, ev: loop_more(E, a, p, deleted) == 0 or ec(a, p, perr) == 1}, exits=lambda k, r: {'a', 'd'} if k == 'ret' else None, no_inline=NU, min_sites=1)
    follow(c, 'R5', 'an error of a pool transaction is told to the accounts', g, K, None, done_br=lambda a, p, ev: loop_more(E, a, p, subs) == 0, trig_br=lambda a, p, ev: ec(a, p, perr) == 1, no_inline=NU)
    follow(c, 'R5', 'the result of a pool transaction is looked at', g, K, proc, done_br=lambda a, p, ev: ec(a, p) is not None, no_inline=NU)
    follow(c, 'R5', 'a vanished transaction is deleted from every account', g, K, forget, done_br=lambda a, p, ev: loop_more(E, a, p, subs) == 0, no_inline=NU)
    for n, entry in (('onPoolUpdated', None), ('removeUnconfirmedTransaction', None)):
        g = f[n]
        c.each('R5', 'every account deletes the transaction, or is told of the error', g, K, subs, done=lambda ev: delete(ev) or err(ev), exits=lambda k, r: k == 'ret' and n == 'removeUnconfirmedTransaction', no_inline=NU)
        b, e = told('onTransactionDeleteBegin'), told('onTransactionDeleteEnd')
        c.gates('R5', g, K, {'b': 'the start of the deletion is announced'}, ev={'b': b}, kills={'b': e}, targets=[('deleted', delete, {'b'}), ('end of deletion', e, {'b'})], no_inline=NU, min_sites=2)
        follow(c, 'R5', 'the end of the deletion is announced', g, K, b, done=e, no_inline=NU)
    for n in ('onPoolUpdated', 'addUnconfirmedTransaction'):
        g = f[n]
        c.gates('R5', g, K, {'h': 'it counts as unconfirmed'}, ev={'h': lambda ev: writes('height')(ev) and UNC(ev.rhs)}, targets=[('pool transaction applied', proc, {'h'})], no_inline=NU, min_sites=1)
    # R6
    g = F.q1('cn::createTransfers')
    nout = lambda t: isc(t, 'getOutputCount')
    idx = lambda t: strip(t)[0] == 'call' and last(strip(t)[1]) == 'operator*' or 'phi' in str(t)
    credit = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and strip(ev.obj)[0] == 'param'
    outs = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 3
    seen = lambda t: 'public_keys_seen' in str(t)
    seentx = lambda t: 'transactions_hash_seen' in str(t)
    absent_ = lambda pred: (lambda a, p, ev: eq(a, p, lambda t: isc(t, 'find') and pred(t), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 0 and pred(a) or stripc(a)[0] == 'in' and p == 0 and pred(a) or leq(a, p, lambda t: isc(t, 'count') and pred(t), lambda t: const_of(t) == 0) or eq(a, p, lambda t: isc(t, 'count') and pred(t), lambda t: const_of(t) == 0))
    there = lambda pred: (lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find') and pred(t), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1 and pred(a) or stripc(a)[0] == 'in' and p == 1 and pred(a) or lt(a, p, lambda t: const_of(t) == 0, lambda t: isc(t, 'count') and pred(t)) or ne(a, p, lambda t: isc(t, 'count') and pred(t), lambda t: const_of(t) == 0))
    key = lambda a, p, ev: is_enum(a, p, lambda t: isc(t, 'getOutputType') or isf(t, 'type'), 'Key')
    notkey = lambda a, p, ev: not_enum(a, p, lambda t: isc(t, 'getOutputType') or isf(t, 'type'), 'Key')
    notms = lambda a, p, ev: not_enum(a, p, lambda t: isc(t, 'getOutputType') or isf(t, 'type'), 'Multisignature')
    more = lambda a, p, ev: loop_more(E, a, p, outs) == 1
    NK = ()
    keys_of = lambda t: isf(t, 'keys')
    fields = {'type': ('its type', lambda t: isc(t, 'getOutputType')), 'outputInTransaction': ('its place', idx), 'globalOutputIndex': ('its index', lambda t: UIDX(t) or m.param(t)), 'amount': ('its amount', lambda t: True), 'transactionPublicKey': ('the key of its transaction', lambda t: isc(t, 'getTransactionPublicKey'))}
    UIDX = lambda t: m.glob(t, 'UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX')
    read = lambda ev: ev.kind == 'call' and ev.name == 'getOutput' and len(ev.args) == 3
    names = {'in': 'the place lies within the transaction', 'new': 'its key was not seen in another transaction', 'read': 'the output was read', 'img': 'its key image was made'}
    names.update({k: 'it has ' + v[0] for k, v in fields.items()})
    evs = {k: (lambda ev, k=k, v=v: writes(k)(ev) and v[1](ev.rhs)) for k, v in fields.items()}
    evs.update({'read': read, 'img': calls('cn::generate_key_image_helper')})
    c.gates('R6', g, K, names, br={'in': lambda a, p, ev: lt(a, p, lambda t: True, nout), 'new': lambda a, p, ev: absent_(seen)(a, p, ev) or there(seentx)(a, p, ev) or loop_more(E, a, p, keys_of) == 0, 'img': notkey, 'nk': notkey, 'nm': notms}, ev=evs, fresh=more,
            targets=[('output credited', credit, lambda f: set() if f >= {'nk', 'nm'} else set(names))], no_inline=NK, min_sites=1)
    isms = lambda a, p, ev: is_enum(a, p, lambda t: isc(t, 'getOutputType') or isf(t, 'type'), 'Multisignature')
    more_ = {'outputKey': ('its key', lambda t: isf(t, 'key')), 'requiredSignatures': ('its number of signatures', lambda t: isf(t, 'requiredSignatureCount')), 'term': ('its term', lambda t: isf(t, 'term'))}
    c.gates('R6', g, K, dict({k: 'it has ' + v[0] for k, v in more_.items()}, nk='it is no key output', nm='it is no multisignature output'), br={'nk': notkey, 'nm': notms, 'outputKey': isms, 'requiredSignatures': key, 'term': key}, ev={k: (lambda ev, k=k, v=v: writes(k)(ev) and v[1](ev.rhs)) for k, v in more_.items()}, fresh=more,
            targets=[('output credited', credit, lambda f: set() if f >= {'nk', 'nm'} else {'outputKey'} if 'nm' in f else {'requiredSignatures', 'term'} if 'nk' in f else set(more_))], no_inline=NK, min_sites=1)
    c.gates('R6', g, K, {'in': 'the place lies within the transaction'}, br={'in': lambda a, p, ev: lt(a, p, lambda t: True, nout)}, fresh=more, targets=[('output read', lambda ev: ev.kind == 'call' and ev.name in ('getOutput', 'getOutputType'), {'in'})], min_sites=2)
    gi = lambda t: strip(t)[0] == 'param' and 'unsigned int' in str(strip(t)[2]) and strip(t)[1] != 3
    c.gates('R6', g, K, {'idx': 'its index lies within those of the node'}, br={'idx': lambda a, p, ev: unc(hgt)(a, p, ev) or lt(a, p, lambda t: True, lambda t: isc(t, 'size') and any(gi(x) for x in subterms(t)) or t[0] == 'size' and gi(t[1]))}, fresh=more,
            targets=[('index of an output', lambda ev: ev.kind == 'call' and ev.name == 'operator[]' and ev.obj is not None and gi(ev.obj), {'idx'})], no_inline=NK, min_sites=0)
    c.each('R6', 'no key of a credited multisignature output was seen in another transaction', g, K, keys_of, done_br=lambda a, p, ev: absent_(seen)(a, p, ev) or there(seentx)(a, p, ev), exits=lambda k, r: False)
    noted = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'insert', 'emplace', 'emplace_back') and ev.obj is not None and strip(ev.obj)[0] != 'param' and not seentx(ev.obj)
    follow(c, 'R6', 'a new key is noted', g, K, None, done=noted, trig_br=absent_(seen), done_br=lambda a, p, ev: stripc(a)[0] == 'in' and p == 1, exits=lambda k, r: k == 'ret')
    c.gates('R6', g, K, {'tx': 'the transaction is noted as seen', 'keys': 'its keys are noted as seen', 'all': 'all outputs were looked at'}, ev={'tx': lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and seentx(ev.obj), 'keys': lambda ev: ev.kind == 'call' and (ev.name in ('emplace', 'insert') and seen(ev.obj) or ev.name in ('copy', 'move', 'merge') and seen(ev.term))},
            br={'all': lambda a, p, ev: loop_more(E, a, p, outs) == 0 or there(seen)(a, p, ev) or stripc(a)[0] == 'in' and p == 1 or leq(a, p, nout, lambda t: True), 'tx': lambda a, p, ev: there(seen)(a, p, ev) or stripc(a)[0] == 'in' and p == 1 or leq(a, p, nout, lambda t: True), 'keys': lambda a, p, ev: loop_more(E, a, p, lambda t: strip(t)[0] == 'obj' and 'PublicKey' in strip(t)[2]) == 0 or there(seen)(a, p, ev) or stripc(a)[0] == 'in' and p == 1 or leq(a, p, nout, lambda t: True)},
            exits=lambda k, r: {'tx', 'keys', 'all'} if k == 'ret' and 'argument_out_of_domain' not in str(r) else None, min_sites=1)
    hh = Hits(E, K, lambda ev: ev.kind == 'decl' and any(x in str(ev.type) for x in ('lock_guard', 'unique_lock')))
    c.run(hh, g)
    c.check(any('seen_mutex' in str(ev.term) for ev in hh.hits) or any('seen_mutex' in n for n in g.names), 'R6', 'the seen keys are locked', nm(g), construct='seen_mutex')
    g = f['preprocessOutputs']
    NX = ('cn::createTransfers', TC + 'getGlobalIndices')
    make = calls('cn::createTransfers')
    idxs = lambda t: m.call(t, 'getGlobalIndices')
    c.gates('R6', g, K, {'idx': 'its indexes are known, or it is unconfirmed'}, br={'idx': lambda a, p, ev: ec(a, p, idxs) == 0 or unc(hgt)(a, p, ev)}, targets=[('outputs credited', make, {'idx'})], no_inline=NX, min_sites=1)
    mineq = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find') and m.fld(t, 'm_subscriptions'), lambda t: isc(t, 'end'))
    follow(c, 'R6', 'the outputs of every account are made', g, K, None, done=make, trig_br=mineq, no_inline=NX)
    rets = []

    class Pre(Rule):
        init = 0

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, NX

        def branch(self, s, a, p, ev):
            return {1: 1, 0: 0}.get(ec(a, p, lambda t: m.call(t, 'getGlobalIndices', 'createTransfers')), s)

        def leave(self, s, kind, ret, ev, st):
            if self.final and kind == 'ret':
                rets.append((s, ret, ev.line))
    c.run(Pre(), g)
    for s, ret, line in rets:
        c.check(s == 0 or m.call(ret, 'getGlobalIndices', 'createTransfers') or strip(ret)[0] == 'phi', 'R6', 'an error of the node or of an output is returned', '%s in %s' % (g.loc(line), g.qn), construct='error of preprocessOutputs')
    follow(c, 'R6', 'the result is looked at', g, K, lambda ev: ev.kind == 'call' and ev.qn in NX, done_br=lambda a, p, ev: ec(a, p) is not None, no_inline=NX)
    g = F.q1(TC + 'getGlobalIndices')
    c.gates('R6', g, K, {'ask': 'the node was asked'}, ev={'ask': lambda ev: ev.kind == 'call' and ev.name == 'getTransactionOutsGlobalIndices'}, exits=lambda k, r: {'ask'} if k == 'ret' else None, min_sites=1)
    # R7
    g = f['onBlockchainDetach']
    det = calls(TS + 'onBlockchainDetach')
    ND = (TS + 'onBlockchainDetach',)
    c.each('R7', 'every account is detached', g, K, subs, done=det, no_inline=ND)
    hh = Hits(E, K, det, no_inline=ND)
    c.run(hh, g)
    for ev in hh.hits:
        c.check(strip(ev.args[0])[0] == 'param', 'R7', 'it is detached at the height', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='height of the detach')
    c.gates('R7', g, K, {'told': 'the detach is announced'}, ev={'told': told('onBlockchainDetach')}, exits=lambda k, r: {'told'} if k == 'ret' else None, no_inline=ND, min_sites=1)
    s = {n: F.q1(TS + n) for n in ('onBlockchainDetach', 'onError', 'advanceHeight', 'addTransaction', 'deleteUnconfirmedTransaction', 'markTransactionConfirmed')}
    NT = tuple(TR + x for x in ('detach', 'advanceHeight', 'addTransaction', 'deleteUnconfirmedTransaction', 'markTransactionConfirmed'))
    empty = lambda x: (lambda a, p, ev: is_empty(a, p, x))
    anyobj = lambda *ns: (lambda t: strip(t)[0] in ('obj', 'var', 'phi', 'call'))
    g = s['onBlockchainDetach']
    c.gates('R7', g, K, {'det': 'the outputs are detached', 'all': 'every deleted transaction is announced', 'lock': 'newly locked outputs are announced'}, ev={'det': calls(TR + 'detach'), 'lock': told('onTransfersLocked')}, br={'all': lambda a, p, ev: loop_more(E, a, p, lambda t: strip(t)[0] == 'obj' and 'Hash' in strip(t)[2]) == 0, 'lock': lambda a, p, ev: is_empty(a, p, lambda t: strip(t)[0] == 'obj' and 'TransactionOutputInformation' in strip(t)[2])},
            exits=lambda k, r: {'det', 'all', 'lock'} if k == 'ret' else None, no_inline=NT, min_sites=1)
    hh = Hits(E, K, calls(TR + 'detach'), no_inline=NT)
    c.run(hh, g)
    for ev in hh.hits:
        c.check(strip(ev.args[0])[0] == 'param', 'R7', 'it is detached at the height', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='height of the detach of the container')
    c.each('R7', 'every deleted transaction is announced', g, K, lambda t: strip(t)[0] == 'obj' and 'Hash' in strip(t)[2], done=told('onTransactionDeleted'), no_inline=NT)
    g = s['onError']
    c.gates('R7', g, K, {'det': 'the blocks are rolled back, or it was a pool transaction', 'told': 'the error is announced'}, ev={'det': lambda ev: det(ev) or calls(TR + 'detach')(ev), 'told': told('onError')}, br={'det': unc(lambda t: m.param(t))}, exits=lambda k, r: {'det', 'told'} if k == 'ret' else None, no_inline=NT + ND, min_sites=1)
    g = s['advanceHeight']
    c.gates('R7', g, K, {'adv': 'the height advances', 'told': 'unlocked outputs are announced'}, ev={'adv': calls(TR + 'advanceHeight'), 'told': told('onTransfersUnlocked')}, br={'told': lambda a, p, ev: is_empty(a, p, lambda t: True)}, exits=lambda k, r: {'adv', 'told'} if k == 'ret' else None, no_inline=NT, min_sites=1)
    g = s['addTransaction']
    c.gates('R7', g, K, {'add': 'it is added', 'told': 'it is announced if it was added', 'unl': 'unlocked outputs are announced'}, ev={'add': calls(TR + 'addTransaction'), 'told': told('onTransactionUpdated'), 'unl': told('onTransfersUnlocked')},
            br={'told': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'addTransaction')) == 0, 'unl': lambda a, p, ev: is_empty(a, p, lambda t: True)}, exits=lambda k, r: {'add', 'told', 'unl'} if k == 'ret' else None, no_inline=NT, min_sites=1)
    g = s['deleteUnconfirmedTransaction']
    c.gates('R7', g, K, {'del': 'it is deleted', 'told': 'it is announced if it was deleted'}, ev={'del': calls(TR + 'deleteUnconfirmedTransaction'), 'told': told('onTransactionDeleted')}, br={'told': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'deleteUnconfirmedTransaction')) == 0}, exits=lambda k, r: {'del', 'told'} if k == 'ret' else None, no_inline=NT, min_sites=1)
    g = s['markTransactionConfirmed']
    c.gates('R7', g, K, {'mark': 'it is confirmed', 'told': 'it is announced'}, ev={'mark': calls(TR + 'markTransactionConfirmed'), 'told': told('onTransactionUpdated')}, exits=lambda k, r: {'mark', 'told'} if k == 'ret' else None, no_inline=NT, min_sites=1)
    # accounts
    g = f['addSubscription']
    ins_ = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and ev.obj is not None and isf(ev.obj, 'm_spendKeys')
    own_key = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'viewSecretKey'), lambda t: isf(t, 'm_viewSecret'))
    c.gates('R7', g, K, {'view': 'it has the view key of the consumer'}, br={'view': own_key}, targets=[('account added', ins_, {'view'})], no_inline=(TC + 'updateSyncStart',), min_sites=1)
    follow(c, 'R7', 'the first block is found anew for a new account', g, K, ins_, done=calls(TC + 'updateSyncStart'), no_inline=(TC + 'updateSyncStart',))
    c.each('R7', 'unconfirmed transactions of every account are known', f['initTransactionPool'], K, subs, done=lambda ev: ev.kind == 'call' and ev.name == 'getUnconfirmedTransactions')
    known_ = lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and ev.obj is not None and isf(ev.obj, 'm_poolTxs')
    given = lambda t: any(x[0] == 'param' for x in subterms(t))
    c.gates('R7', f['initTransactionPool'], K, {'old': 'it is not one that was just made'}, br={'old': lambda a, p, ev: absent_(given)(a, p, ev)}, targets=[('remembered', known_, {'old'})], fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: strip(t)[0] == 'obj') == 1, min_sites=1)
    g = f['removeSubscription']
    c.gates('R7', g, K, {'sub': 'the account is removed', 'key': 'its key is removed', 'start': 'the first block is found anew'}, ev={'sub': lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and subs(ev.obj), 'key': lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and isf(ev.obj, 'm_spendKeys'), 'start': calls(TC + 'updateSyncStart')}, kills={'start': lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and subs(ev.obj)},
            exits=lambda k, r: {'sub', 'key', 'start'} if k == 'ret' else None, no_inline=(TC + 'updateSyncStart',), min_sites=1)
    g = f['addSubscription']
    c.gates('R7', g, K, {'key': 'its spend key is watched, or it was known'}, ev={'key': ins_}, br={'key': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'get', 'operator bool') or 'm_subscriptions' in str(t)) == 1 or ne(a, p, lambda t: 'm_subscriptions' in str(t), lambda t: t in (NULL, FALSE) or isc(t, 'end'))}, exits=lambda k, r: {'key'} if k == 'ret' else None, no_inline=(TC + 'updateSyncStart',), min_sites=1)
    g = f['updateSyncStart']
    ts = lambda t: isf(t, 'timestamp')
    mn = lambda ev: writes('timestamp')(ev) and m.call(ev.rhs, 'min')
    c.each('R7', 'the earliest start of all accounts counts', g, K, subs, done=mn, done_br=lambda a, p, ev: leq(a, p, ts, ts) or lt(a, p, ts, ts))
    c.gates('R7', g, K, {'lower': 'a start is replaced by an earlier one'}, br={'lower': lambda a, p, ev: leq(a, p, ts, ts) or lt(a, p, ts, ts)}, fresh=lambda a, p, ev: loop_more(E, a, p, subs) == 1, targets=[('start replaced', lambda ev: writes('timestamp')(ev) and ts(ev.rhs), {'lower'})], min_sites=0)
    c.gates('R7', g, K, {'set': 'the start is kept'}, ev={'set': lambda ev: writes('m_syncStart')(ev) or ev.kind == 'call' and ev.obj is not None and isf(ev.obj, 'm_syncStart')}, exits=lambda k, r: {'set'} if k == 'ret' else None, min_sites=1)
    # R8
    BQ = 'BlockingQueue::'
    shut_, lot = lambda t: isf(t, 'm_closed'), lambda t: isf(t, 'm_queue')
    closed = lambda v: (lambda a, p, ev: flag(a, p, shut_) == v)
    wake = lambda cv, *ns: (lambda ev: ev.kind == 'call' and ev.name in ns and ev.obj is not None and isf(ev.obj, cv))
    wait = lambda cv: (lambda ev: ev.kind == 'call' and ev.name == 'wait' and ev.obj is not None and isf(ev.obj, cv))
    put_ = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and lot(ev.obj)
    take = lambda ev: ev.kind == 'call' and ev.name == 'pop_front' and ev.obj is not None and lot(ev.obj)
    Q = lambda f: f.qn.startswith(BQ)
    room = lambda a, p, ev: lt(a, p, lambda t: isc(t, 'size') or t[0] == 'size', lambda t: isf(t, 'm_maxSize'))
    for g in F.q(BQ + 'push'):
        c.gates('R8', g, Q, {'open': 'the queue is open', 'room': 'there is room', 'full': 'the queue is full', 'put': 'the element is in the queue', 'shut': 'the queue is closed'}, br={'open': closed(0), 'room': room, 'full': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_maxSize'), lambda t: True), 'shut': closed(1)}, ev={'put': put_}, kills={x: wait('m_haveSpace') for x in ('open', 'room', 'full', 'shut')},
                targets=[('put into the queue', put_, {'open'}), ('waiting for room', wait('m_haveSpace'), {'open', 'full'})], exits=lambda k, r: None if k != 'ret' else {'put'} if r == TRUE else {'shut'} if r == FALSE else None, min_sites=1)
        follow(c, 'R8', 'a waiting thread is woken', g, Q, put_, done=wake('m_haveData', 'notify_one', 'notify_all'))
    for g in F.q(BQ + 'pop'):
        c.gates('R8', g, Q, {'none': 'the queue is empty', 'shut': 'the queue is closed', 'open': 'the queue is open'}, br={'none': lambda a, p, ev: is_empty(a, p, lot), 'shut': closed(1), 'open': closed(0)}, kills={x: wait('m_haveData') for x in ('none', 'shut', 'open')},
                targets=[('waiting for elements', wait('m_haveData'), {'none', 'open'})], exits=lambda k, r: {'none', 'shut'} if k == 'ret' and r == FALSE else None, min_sites=1)
        follow(c, 'R8', 'a waiting thread is woken', g, Q, take, done=wake('m_haveSpace', 'notify_one', 'notify_all'))
        follow(c, 'R8', 'an element that was taken is returned', g, Q, take, exits=lambda k, r: k == 'ret' and r != TRUE)
    for g in F.q(BQ + 'close'):
        c.gates('R8', g, Q, {'shut': 'the queue is closed', 'data': 'threads that wait for elements are woken', 'room': 'threads that wait for room are woken'}, ev={'shut': lambda ev: writes('m_closed')(ev) and ev.rhs == TRUE, 'data': wake('m_haveData', 'notify_all'), 'room': wake('m_haveSpace', 'notify_all')}, exits=lambda k, r: {'shut', 'data', 'room'} if k == 'ret' else None,
                targets=[('waiting', wait('m_haveSpace'), {'shut', 'data', 'room'})], min_sites=1)
    g = f['onNewBlocks']
    shutq = lambda ev: ev.kind == 'call' and ev.name == 'close' and ev.qn == 'BlockingQueue::close'
    if not all(BQ + 'close' in x.names for x in poppers):
        c.gates('R8', g, K, {'shut': 'no pushing thread is left waiting'}, ev={'shut': shutq}, exits=lambda k, r: {'shut'} if k == 'ret' else None, no_inline=NN, min_sites=1)
