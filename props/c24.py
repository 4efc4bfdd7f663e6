"""A send of the wallet: orders, fee and change are paid from unlocked outputs, or the send is undone."""
from .common import *
from .c17 import Hits
from .c18 import lams
from .c22 import lin, is_lin, ec
from .c23 import Seq, Ends, leaves, decided

WG = 'cn::WalletGreen::'

META = dict(
    title='A wallet send pays its orders and fee from unlocked outputs, or is undone',
    statement='Every order becomes an output of its amount and address, order and fee are summed without overflow, inputs are unlocked outputs of the chosen source addresses, each at most once, worth at least that sum, and what remains after a donation goes to the change address of the caller. A transaction is recorded before it is relayed; any failure after that marks it failed and frees its outputs, and it counts as sent or as uncommitted only after the relay or the record succeeded. Commit and rollback are possible only for uncommitted transactions, and sending needs an initialised, running wallet that holds its keys.',
    over=['inputs', 'histories', 'faults'],
    qtext='every order list, wallet content, answer of the node and point of failure',
    why='An unpaid order, a lost change, a doubled input or a send that stays half recorded is money lost; tests send a few amounts with a cooperative node.',
    files=['src/Wallet/WalletGreen.cpp', 'src/Wallet/WalletGreen.h'],
    mechanism=[('amounts', 'countNeededMoney, convertOrdersToTransfers, pushDonationTransferIfPossible'), ('composition', 'WalletGreen::prepareTransaction, prepareInputs, makeTransaction, createDeposit, withdrawDeposit, createFusionTransaction'), ('selection', 'selectTransfers, pickWallets, pickWalletsWithMoney'), ('recording', 'validateSaveAndSendTransaction, commitTransaction, rollbackUncommitedTransaction')],
    state=[('uncommitted', 'transactions made but not relayed', 'WalletGreen::m_uncommitedTransactions'), ('transactions', 'states of all known transactions', 'WalletGreen::m_transactions')],
    observe=['transactions relayed to the node', 'states and events of wallet transactions'],
    technique='gate, follow-up and per-element analysis over the CFG with linear amount terms and scope-guard typestate',
    level_note='Decides the steps and the amount terms on every path; the node, the decomposition of amounts and the cryptography are trusted, and so is that a decomposition sums up to its amount. Fees below the minimum are the caller\'s choice and are rejected by the node.',
)
MIN = 50
EXPLAIN = 'Every CFG path of the sending functions of the wallet; obligations are one per order, input, amount, guard, state change and exit.'


def HERE(f):
    return f.rel().endswith('Wallet/WalletGreen.cpp') or f.rel().endswith('Wallet/WalletGreen.h')


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'amounts are summed completely, positive, and without overflow')
    c.rule('R2', 'a transfer spends what it needs; all that remains after a donation is change of the given address')
    c.rule('R3', 'the found money is the sum of the selected outputs, and no output is selected twice')
    c.rule('R4', 'every selected output becomes one input, with its amount, key and index among its decoys')
    c.rule('R5', 'decoys are asked for every input; an error or a shortage ends the send')
    c.rule('R6', 'all outputs and inputs are added to the transaction and every input is signed, last')
    c.rule('R7', 'a transaction is recorded before it is relayed, and every failure undoes the record')
    c.rule('R8', 'sending needs an initialised, running wallet that holds its keys, and valid addresses')
    c.rule('R9', 'inputs come from unlocked outputs of the chosen addresses; change goes to an own address')
    c.rule('R10', 'a deposit is withdrawn only when it exists and is unlocked; a fusion has enough inputs and fits')
    K = HERE
    names = ('prepareTransaction', 'selectTransfers', 'prepareInputs', 'requestMixinOuts', 'sendTransaction', 'validateSaveAndSendTransaction', 'commitTransaction', 'rollbackUncommitedTransaction', 'doTransfer', 'withdrawDeposit', 'createDeposit', 'createFusionTransaction',
             'pickWallets', 'pickWallet', 'pickWalletsWithMoney', 'splitDestinations', 'splitAmount', 'validateTransactionParameters', 'validateSourceAddresses', 'validateChangeDestination', 'validateOrders', 'getChangeDestination', 'isMyAddress',
             'pushBackOutgoingTransfers', 'insertOutgoingTransactionAndPushEvent', 'updateTransactionStateAndPushEvent', 'addUnconfirmedTransaction', 'removeUnconfirmedTransaction', 'throwIfNotInitialized', 'throwIfStopped', 'throwIfTrackingMode', 'pickRandomFusionInputs', 'makeAccountKeys', 'prepareMultisignatureInputs', 'decomposeFusionOutputs')
    f = {n: F.q1(WG + n) for n in names}
    pub = [g for g in F.q(WG + 'makeTransaction') if g.id.count(',') == 0]
    build = [g for g in F.q(WG + 'makeTransaction') if g.id.count(',') > 1]
    if len(pub) != 1 or len(build) != 1:
        c.broken('makeTransaction is not found')
    pub, build = pub[0], build[0]

    def local(n):
        gs = [g for g in F.fns.values() if g.name == n and HERE(g)]
        return gs[0] if gs else c.broken(n + ' is not found')
    g_need, g_conv, g_don, g_push, g_mix = [local(n) for n in ('countNeededMoney', 'convertOrdersToTransfers', 'calculateDonationAmount', 'pushDonationTransferIfPossible', 'checkIfEnoughMixins')]
    ALL = tuple(WG + n for n in names) + (WG + 'makeTransaction', WG + 'getAddress', WG + 'getWalletRecord', WG + 'parseAddress', WG + 'getDeposit', WG + 'getTransactionTransfer', WG + 'getBlockCount', WG + 'pushEvent') + tuple(g.qn for g in (g_need, g_conv, g_don, g_push, g_mix)) + tuple(local(n).qn for n in ('split', 'collectScarceMixinAmounts', 'getTransactionSize', 'parseAddressString', 'parseAccountAddressString'))
    but = lambda *ns: tuple(x for x in ALL if last(x) not in ns)
    at = lambda ev: '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn)
    where = lambda g: '%s in %s' % (g.loc(), g.qn)
    par = lambda i: (lambda t: strip(t)[0] == 'param' and strip(t)[1] == i)
    okret = lambda k, r: k == 'ret'
    thrown = lambda k, r: k == 'ret'
    run = lambda rule, fn: (c.run(rule, fn), rule)[1]
    hits = lambda fn, pred, no=ALL, **kw: run(Hits(E, K, pred, no_inline=no, **kw), fn).hits
    pushed = lambda pred: (lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'emplace', 'insert') and ev.obj is not None and pred(strip(ev.obj)))
    fl = lambda name, v: (lambda a, p, ev: flag(a, p, lambda t: isf(t, name)) == v)
    has = lambda t, pred: any(pred(x) for x in subterms(t))
    some = lambda i: (lambda t: has(t, par(i)))

    def boolp(a, p, pred):
        v = flag(a, p, pred)
        if v is None and p == 1 and a[0] == 'cmp' and a[1] in ('==', '!='):
            for u, w in ((a[2], a[3]), (a[3], a[2])):
                if const_of(w) == 1 and pred(stripc(strip(u))):
                    return 1 if a[1] == '==' else 0
        return v
    # the result of a search is the end of the range: no element was found
    noneleft = lambda a, p, ev: eq(a, p, lambda t: strip(t)[0] in ('phi', 'call', 'var', 'obj') and not isc(t, 'end', 'cend'), lambda t: isc(t, 'end', 'cend'))

    # R1: amounts
    amt = lambda t: isf(t, 'amount')
    dests = par(0)
    feep = par(1)
    summed = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and has(ev.rhs, amt) and (ev.op == '+=' or ev.op == '=' and lin(ev.rhs).get(None, 0) == 0 and len(lin(ev.rhs)) == 2)
    feed = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and (ev.op == '+=' and feep(ev.rhs) or ev.op == '=' and any(x is not None and feep(x) for x in lin(ev.rhs)))
    g = g_need
    c.each('R1', 'every destination is added to the sum', g, K, dests, done=summed, exits=lambda k, r: k == 'ret')
    c.gates('R1', g, K, {'pos': 'the amount is positive', 'fee': 'the fee is added'},
            br={'pos': lambda a, p, ev: lt(a, p, lambda t: const_of(t) == 0, amt) or leq(a, p, lambda t: const_of(t) == 1, amt)}, ev={}, fresh=lambda a, p, ev: loop_more(E, a, p, dests) == 1,
            targets=[('amount added', summed, set())], min_sites=1)
    nz = lambda a, p, ev: flag(a, p, amt) == 1 or ne(a, p, amt, lambda t: const_of(t) == 0) or lt(a, p, lambda t: const_of(t) == 0, amt)
    nn = lambda a, p, ev: leq(a, p, lambda t: const_of(t) == 0, amt) or lt(a, p, lambda t: const_of(t) == 0, amt) or leq(a, p, lambda t: const_of(t) == 1, amt)
    c.gates('R1', g, K, {'nz': 'no amount is zero', 'nn': 'no amount is negative'}, br={'nz': lambda a, p, ev: nz(a, p, ev) or lt(a, p, lambda t: const_of(t) == 0, amt), 'nn': nn}, fresh=lambda a, p, ev: loop_more(E, a, p, dests) == 1, targets=[('amount added', summed, {'nz', 'nn'})], min_sites=1)
    # after every addition the overflow is excluded, before it or after it
    over = lambda ad: (lambda a, p, ev: leq(a, p, ad, lambda t: has(t, lambda x: x[0] in ('phi', 'var')) or any(ad(x) for x in lin(t) if x is not None)) and (a[0] != 'cmp' or a[2] != a[3]))
    fits = lambda ad: (lambda a, p, ev: over(ad)(a, p, ev) or leq(a, p, lambda t: True, lambda t: lin(t).get(None, 0) > 2 ** 32 or has(t, lambda x: isc(x, 'max'))) or lt(a, p, lambda t: True, lambda t: lin(t).get(None, 0) > 2 ** 32 or has(t, lambda x: isc(x, 'max'))))

    def sums(g, add, ad, what, K=K, no=()):
        """an addition is either preceded by a check of the room left, or followed by a check of the sum"""
        def on(st0, ev):
            if add(ev):
                return ('open' if st0 != 'room' else 'ok'), st0 == 'open'
            if ev.kind == 'return':
                return st0, st0 == 'open' or ret(ev) and st0 != 'room'
            return st0, False

        def ret(ev):
            return retadd and ev.term is not None and any(x is not None and ad(x) for x in lin(ev.term)) and len(lin(ev.term)) == 2

        def room(a, p):
            for x, y in ((a[2], a[3]), (a[3], a[2])) if a[0] == 'cmp' else ():
                d = lin(y)
                if len(d) == 2 and None not in d and any(ad(t) for t in d) and stripc(strip(x)) in d and (leq(a, p, lambda t: t == strip(x), lambda t: t == strip(y))):
                    return True
            return False

        def br(st0, a, p):
            if fits(ad)(a, p, None) or room(a, p):
                return 'ok' if st0 == 'open' else 'room'
            return st0
        n = len(hits(g, add, no))
        retadd = not n
        n = n or len(hits(g, lambda ev: ev.kind == 'return' and ret(ev), no))
        q = Seq(E, K, no, on=on, br=br, init='none')
        c.run(q, g)
        if not n:
            c.bad('R1', what + ' (it is not added at all)', where(g), construct='sum of %s in %s' % (what, g.name))
        else:
            c.check(not q.bad, 'R1', 'the sum of %s does not overflow' % what, at(q.bad[0]) if q.bad else where(g), construct='sum of %s in %s' % (what, g.name))
    sums(g, summed, amt, 'the amounts')
    sums(g, feed, feep, 'the fee')
    ends = run(Ends(E, K), g)
    for br_, ret in ends.out:
        c.check(has(ret, feep), 'R1', 'the needed money includes the fee', where(g), construct='fee in countNeededMoney')
    # orders
    fixed = lambda t: has(t, lambda x: isc(x, 'front', 'back') or isc(x, 'operator[]', 'at') and x[3] and const_of(x[3][0]) is not None or x[0] == 'idx' and const_of(x[2]) is not None)
    g = g_conv
    trans = pushed(lambda t: t[0] == 'obj')
    c.each('R1', 'every order becomes a transfer', g, K, par(0), done=trans, exits=lambda k, r: k == 'ret')
    fits64 = lambda a, p, ev: leq(a, p, amt, lambda t: has(t, lambda x: isc(x, 'max')) or (const_of(t) or 0) >= 2 ** 62 and const_of(t) < 2 ** 63) or lt(a, p, amt, lambda t: (const_of(t) or 0) >= 2 ** 62 and const_of(t) <= 2 ** 63)
    c.gates('R1', g, K, {'fit': 'the amount fits', 'a': 'it has the amount', 'to': 'it has the address'}, br={'fit': fits64}, ev={'a': lambda ev: writes('amount')(ev) and isf(stripc(strip(ev.rhs)), 'amount') and not fixed(ev.rhs), 'to': lambda ev: writes('address')(ev) and isf(ev.rhs, 'address') and not fixed(ev.rhs)},
            fresh=lambda a, p, ev: loop_more(E, a, p, par(0)) == 1, targets=[('transfer', lambda ev: trans(ev) and ev.args and strip(ev.args[0])[0] == 'obj', {'fit', 'a', 'to'})], min_sites=0)
    # donation
    g = g_push
    c.gates('R1', g, K, {'set': 'a donation is asked for', 'nz': 'it is not zero', 'fit': 'the threshold fits'}, br={'set': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'threshold')) == 1 or ne(a, p, lambda t: isf(t, 'threshold'), lambda t: const_of(t) == 0), 'nz': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'calculateDonationAmount')) == 1},
            targets=[('donation', pushed(par(3)), {'set', 'nz'})], no_inline=ALL, min_sites=1)
    for ev in hits(g, pushed(par(3))):
        c.check(has(ev.args[0], lambda t: isc(t, 'calculateDonationAmount')) or not has(ev.args[0], lambda t: t[0] in ('init', 'ctor')), 'R1', 'the amount that is given is the one that is paid', at(ev), construct='amount of the donation')
        c.check(has(ev.args[0], lambda t: isf(t, 'address')) or not has(ev.args[0], lambda t: t[0] in ('init', 'ctor')), 'R1', 'it goes to the address of the donation', at(ev), construct='address of the donation')
    ends = run(Ends(E, K), g) if False else Ends(E, K)
    ends.no_inline = ALL
    c.run(ends, g)
    for br_, ret in ends.out:
        c.check(const_of(ret) == 0 or isc(ret, 'calculateDonationAmount'), 'R1', 'the donation that is reported is the one that is given', where(g), construct='value of pushDonationTransferIfPossible')
    follow(c, 'R1', 'a donation that is counted is given', g, K, None, done=pushed(par(3)), trig_br=lambda a, p, ev: flag(a, p, lambda t: isc(t, 'calculateDonationAmount')) == 1, no_inline=ALL)
    for ev in hits(g, calls(g_don.qn)):
        c.check(par(1)(ev.args[0]) and isf(ev.args[1], 'threshold'), 'R1', 'it is taken from what is free, up to the threshold', at(ev), construct='arguments of calculateDonationAmount')
    g = g_don
    chunk = lambda t: strip(t)[0] in ('phi', 'deref', 'idx', 'call', 'elem', 'var', 'obj')
    given = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and ev.op == '+='
    c.gates('R1', g, K, {'room': 'the donation stays within the threshold'}, br={'room': lambda a, p, ev: leq(a, p, chunk, lambda t: any(x is not None and par(1)(x) for x in lin(t)) and len(lin(t)) == 2) or leq(a, p, lambda t: len(lin(t)) == 2, par(1))}, kills={'room': given}, fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: True) == 1, targets=[('donation grows', given, {'room'})], min_sites=0)

    # R2: prepareTransaction
    g = f['prepareTransaction']
    P = {n: i for i, n in enumerate(('wallets', 'orders', 'messages', 'fee', 'mixIn', 'extra', 'unlock', 'donation', 'change', 'ttl', 'out', 'sk'))}
    needed = lambda t: isf(t, 'neededMoney') or isc(t, 'countNeededMoney')
    found = lambda t: isc(t, 'selectTransfers') or strip(t)[0] == 'phi' and 'foundMoney' in str(t)
    donated = lambda t: isc(t, 'pushDonationTransferIfPossible')
    enough = lambda a, p, ev: leq(a, p, needed, found)
    sel, inp, mix, mk = calls(WG + 'selectTransfers'), calls(WG + 'prepareInputs'), calls(WG + 'requestMixinOuts'), calls(WG + 'makeTransaction')
    dest, chg = lambda t: isf(t, 'destinations'), lambda t: isf(t, 'changeAmount')
    amount_of = lambda t: chg(t) or is_lin(t, 0, found, (needed, -1), (donated, -1))
    nochg = lambda a, p, ev: flag(a, p, amount_of) == 0
    ischg = lambda a, p, ev: flag(a, p, amount_of) == 1
    chgd = pushed(dest)
    chgo = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and has(ev.args, lambda t: isc(t, 'splitAmount')) and not dest(strip(ev.obj))
    fresh0 = lambda ev: ev.kind == 'call' and ev.name == 'clear' and 'OutputToTransfer' in str(strip(ev.obj))
    conv, need, don = calls(g_conv.qn), calls(g_need.qn), calls(g_push.qn)
    c.gates('R2', g, K, {'found': 'the selected outputs are worth the needed money', 'mix': 'decoys were obtained, or none are wanted', 'empty': 'nothing is selected yet', 'conv': 'the orders were converted', 'need': 'the needed money was summed', 'in': 'the inputs are prepared', 'don': 'the donation was taken', 'chg': 'the change is paid out', 'chd': 'the change is among the transfers', 'split': 'the transfers became outputs'},
            br={'found': enough, 'mix': lambda a, p, ev: flag(a, p, par(P['mixIn'])) == 0, 'chg': nochg, 'chd': nochg}, ev={'mix': mix, 'empty': lambda ev: fresh0(ev) or ev.kind == 'decl' and 'OutputToTransfer' in str(ev.type), 'conv': conv, 'need': need, 'in': inp, 'don': don, 'chg': chgo, 'chd': chgd, 'split': calls(WG + 'splitDestinations')},
            kills={'found': sel, 'mix': sel, 'empty': sel}, targets=[('selection', sel, {'empty', 'need', 'conv'}), ('inputs', inp, {'found', 'mix'}), ('donation', don, {'found'}), ('outputs', calls(WG + 'splitDestinations'), {'don', 'conv'}), ('transaction', mk, {'in', 'chg', 'chd', 'split', 'don', 'found'}), ('change among the transfers', chgd, {'split'})],
            exits=lambda k, r: {'in', 'chg', 'chd'} if k == 'ret' else None, no_inline=ALL, exc='explicit', min_sites=6)
    c.gates('R2', g, K, {'found': 'the selected outputs are worth the needed money', 'empty': 'nothing is selected yet', 'noout': 'no decoys were obtained yet'}, br={'found': enough}, ev={'empty': lambda ev: fresh0(ev) or ev.kind == 'decl' and 'OutputToTransfer' in str(ev.type), 'noout': lambda ev: ev.kind == 'call' and ev.name == 'clear' and 'outs_for_amount' in str(strip(ev.obj)) or ev.kind == 'decl' and 'vector' in str(ev.type) and 'outs_for_amount' in str(ev.type)},
            kills={'found': sel, 'empty': sel, 'noout': mix}, targets=[('selection', sel, {'empty'}), ('inputs', inp, {'found'}), ('decoys asked', mix, {'found', 'noout'})], no_inline=ALL, exc='try', min_sites=3)
    for ev in hits(g, lambda ev: need(ev) or conv(ev) or sel(ev) or inp(ev) or don(ev) or mk(ev) or chgd(ev) or chgo(ev) or mix(ev) or writes('changeAmount')(ev) or writes('neededMoney')(ev) or writes('destinations')(ev) or calls(WG + 'splitDestinations')(ev) or calls(WG + 'splitAmount')(ev) or writes('address')(ev) or writes('amount')(ev)):
        a = ev.args
        say = lambda ok, what, cons: c.check(ok, 'R2', what, at(ev), construct=cons + ' in prepareTransaction')
        isl = lambda t, ty: strip(t)[0] == 'obj' and ty in str(strip(t)[2])
        if need(ev):
            say((dest(a[0]) or isc(a[0], 'convertOrdersToTransfers')) and (par(P['fee'])(a[1]) or const_of(a[1]) == 0 or strip(a[1])[0] == 'phi'), 'the orders and the fee are needed', 'arguments of countNeededMoney')
        elif conv(ev):
            say(par(P['orders'])(a[0]), 'all orders are converted', 'orders')
        elif sel(ev):
            say(needed(a[0]), 'what is needed is selected', 'amount selected')
        elif mix(ev):
            say(par(P['mixIn'])(a[1]), 'as many decoys as wanted are asked', 'number of decoys')
        elif inp(ev):
            say(par(P['mixIn'])(a[2]), 'as many decoys as wanted are used', 'decoys of the inputs')
        elif don(ev):
            say(par(P['donation'])(a[0]) and is_lin(a[1], 0, found, (needed, -1)) and dest(a[3]), 'the donation is taken from what remains', 'amount of the donation')
        elif writes('changeAmount')(ev):
            say(is_lin(ev.rhs, 0, found, (needed, -1), (donated, -1)), 'the change is what remains', 'changeAmount')
        elif writes('neededMoney')(ev):
            say(isc(ev.rhs, 'countNeededMoney'), 'the needed money is the sum', 'neededMoney')
        elif writes('destinations')(ev):
            say(isc(ev.rhs, 'convertOrdersToTransfers'), 'the destinations are those of the orders', 'destinations')
        elif calls(WG + 'splitAmount')(ev):
            say(amount_of(a[0]) and par(P['change'])(a[1]), 'the whole change goes to the change address', 'change')
        elif calls(WG + 'splitDestinations')(ev):
            say(dest(a[0]), 'all transfers become outputs', 'transfers')
        elif writes('amount')(ev) and 'WalletTransfer' in str(ev.lhs[1]):
            say(amount_of(stripc(strip(ev.rhs))), 'the recorded change is the change', 'amount of the change')
        elif writes('address')(ev) and 'WalletTransfer' in str(ev.lhs[1]):
            say(has(ev.rhs, par(P['change'])) or strip(ev.rhs)[0] in ('obj', 'phi'), 'the recorded change has the change address', 'address of the change')
        elif mk(ev):
            say(par(P['messages'])(a[2]) and par(P['extra'])(a[3]) and par(P['unlock'])(a[4]) and par(P['ttl'])(a[5]), 'the transaction has the extra, messages, unlock time and lifetime of the caller', 'arguments of makeTransaction')
    # a fee is left out only for a limited lifetime
    for v in (0, 1):
        q = Seq(E, K, ALL, br=lambda st0, a, p: flag(a, p, par(P['ttl'])) if flag(a, p, par(P['ttl'])) is not None else st0, on=lambda st0, ev: (st0, need(ev) and const_of(ev.args[1]) == 0 and st0 != 1), init=None)
        if v == 0:
            c.run(q, g)
            c.check(not q.bad, 'R2', 'the fee is left out only for a limited lifetime', at(q.bad[0]) if q.bad else where(g), construct='fee in prepareTransaction')
    for nm, (dst, elem) in {'splitDestinations': (0, 'splitAmount')}.items():
        g = f[nm]
        sp = calls(WG + 'splitAmount')
        c.each('R2', 'every transfer becomes outputs', g, K, par(0), done=lambda ev: pushed(lambda t: True)(ev) and has(ev.args, lambda t: isc(t, 'splitAmount')), exits=lambda k, r: k == 'ret', no_inline=ALL)
        for ev in hits(g, sp):
            c.check(isf(stripc(strip(ev.args[0])), 'amount'), 'R2', 'outputs are worth the transfer', at(ev), construct='amount in splitDestinations')
        c.gates('R2', g, K, {'to': 'its address was read'}, ev={'to': lambda ev: ev.kind == 'call' and ev.name in ('parseAddressString', 'parseAccountAddressString', 'parseAddress') and has(ev.args, lambda t: isf(t, 'address'))}, fresh=lambda a, p, ev: loop_more(E, a, p, par(0)) == 1, targets=[('transfer split', sp, {'to'})], no_inline=ALL, min_sites=1)
    g = f['splitAmount']
    for ev in hits(g, lambda ev: ev.kind == 'call' and ev.name == 'decomposeAmount' or writes('receiver')(ev)):
        if ev.kind == 'write':
            c.check(par(1)(ev.rhs), 'R2', 'the outputs go to the address', at(ev), construct='receiver in splitAmount')
        else:
            c.check(par(0)(ev.args[0]), 'R2', 'the whole amount is split', at(ev), construct='amount in splitAmount')
    g = local('parseAddressString')
    ok_ = lambda a, p, ev: truth_of(a, p, 'parseAccountAddressString') == 1
    c.gates('R2', g, K, {'ok': 'the address is valid'}, br={'ok': ok_}, exits=lambda k, r: {'ok'} if k == 'ret' else None, min_sites=1)
    c.gates('R2', local('parseAccountAddressString'), K, {'ok': 'the address is valid'}, br={'ok': ok_}, exits=lambda k, r: {'ok'} if k == 'ret' else None, min_sites=1)

    # R3: selectTransfers
    g = f['selectTransfers']
    wal, outs = par(2), lambda t: isf(t, 'outs')
    took = pushed(par(3))
    back = lambda ev: ev.kind == 'call' and ev.name in ('pop_back', 'erase', 'pop_front', 'pop')
    grow = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and (ev.op == '+=' or ev.op == '=' and len(lin(ev.rhs)) == 2) and has(ev.rhs, amt)
    candidate = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'emplace') and ev.obj is not None and not par(3)(strip(ev.obj))
    c.each('R3', 'every output that is not dust can be selected', g, K, outs, done=candidate, done_br=lambda a, p, ev: leq(a, p, amt, par(1)), exits=lambda k, r: False)
    follow(c, 'R3', 'a selected output is no longer a candidate', g, K, took, done=back, again=True)
    q = Seq(E, K, (), on=lambda st0, ev: (1, st0 == 1) if grow(ev) else (0, False) if took(ev) else (st0, False), init=1)
    # counted at most once per selected output: a count needs a selection before or right after it
    order = Seq(E, K, (), on=lambda st0, ev: (min(st0 + 1, 1), st0 > 0) if grow(ev) else (max(st0 - 1, -1), st0 < 0) if took(ev) else (st0, st0 != 0 and ev.kind == 'return'), init=0)
    c.run(order, g)
    c.check(not order.bad, 'R3', 'money is counted once for every selected output', at(order.bad[0]) if order.bad else where(g), construct='count in selectTransfers')
    seln = [strip(ev.args[0]) for ev in hits(g, took)]
    cnt = hits(g, grow)
    for ev in cnt:
        d = lin(ev.rhs)
        rest = {t: k for t, k in d.items() if t is None or not amt(t)}
        c.check(sum(k for t, k in d.items() if t is not None and amt(t)) == 1 and (not rest if ev.op == '+=' else len(rest) <= 1 and None not in rest), 'R3', 'exactly the amount is counted', at(ev), construct='amount counted in selectTransfers')
        owners = [x for x in subterms(ev.rhs) if isc(x, 'back', 'front', 'operator[]', 'at') or x[0] in ('idx', 'deref')]
        c.check(not owners or not seln or any(o in list(subterms(s)) for o in owners for s in seln), 'R3', 'the counted amount is that of the selected output', at(ev), construct='amount in selectTransfers')
    ends = run(Ends(E, K), g)
    for br_, ret in ends.out:
        c.check(const_of(ret) == 0 or strip(ret)[0] in ('phi', 'var') or strip(ret)[0] == 'op' and ret[1] == '+' and has(ret, amt), 'R3', 'the found money is what was counted', where(g), construct='value of selectTransfers')
    sumvars = {strip(ev.lhs)[1] for ev in cnt}
    c.check(bool(sumvars), 'R3', 'the selected money is counted', where(g), construct='count in selectTransfers')
    for ev in hits(g, lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and strip(ev.lhs)[1] in sumvars and not grow(ev)):
        c.bad('R3', 'the found money changes only by selected outputs', at(ev), construct='sum in selectTransfers')

    # R4: prepareInputs
    g = f['prepareInputs']
    selp, keys = par(0), par(3)
    each_sel = lambda a, p, ev: loop_more(E, a, p, selp) == 1
    addk = pushed(keys)
    ring = lambda t: isf(t, 'outputs')
    gi = lambda t: isf(t, 'global_amount_index')
    own = lambda t: isf(t, 'globalOutputIndex')
    real = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and ev.obj is not None and ring(strip(ev.obj))
    fake = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and ring(strip(ev.obj))
    wr = lambda field, val: (lambda ev: writes(field)(ev) and val(stripc(strip(ev.rhs))))
    c.each('R4', 'every selected output becomes an input', g, K, selp, done=addk, exits=lambda k, r: k == 'ret')
    c.gates('R4', g, K, {'amt': 'it has its amount', 'real': 'the real output is among the ring', 'pos': 'its position is known', 'tx': 'its transaction key is known', 'out': 'its index in the transaction is known', 'w': 'its owner is known', 'key': 'the real output has its key', 'ix': 'the real output has its index'},
            ev={'amt': wr('amount', amt), 'real': real, 'pos': writes('transactionIndex'), 'tx': wr('transactionPublicKey', lambda t: isf(t, 'transactionPublicKey')), 'out': wr('outputInTransaction', lambda t: isf(t, 'outputInTransaction')), 'w': wr('walletRecord', lambda t: isf(t, 'wallet')), 'key': wr('targetKey', lambda t: isf(t, 'outputKey')), 'ix': wr('outputIndex', own)},
            fresh=each_sel, targets=[('input', addk, {'amt', 'real', 'pos', 'tx', 'out', 'w'}), ('real output', real, {'key', 'ix'})], min_sites=2)
    c.gates('R4', g, K, {'ne': 'it is not the real output', 'fi': 'it has its index', 'fk': 'it has its key'}, br={'ne': lambda a, p, ev: ne(a, p, gi, own)}, ev={'fi': wr('outputIndex', gi), 'fk': wr('targetKey', lambda t: isf(t, 'out_key'))}, fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, 'outs')) == 1,
            targets=[('decoy', fake, {'ne', 'fi', 'fk'})], min_sites=1)
    follow(c, 'R4', 'no more decoys than wanted are used', g, K, fake, done_br=lambda a, p, ev: lt(a, p, lambda t: isc(t, 'size') and ring(t[2]) or t[0] == 'size' and ring(t[1]), par(2)) or leq(a, p, par(2), lambda t: isc(t, 'size') and ring(t[2]) or t[0] == 'size' and ring(t[1])), again=True)
    full = lambda a, p, ev: leq(a, p, par(2), lambda t: isc(t, 'size') and ring(t[2]) or t[0] == 'size' and ring(t[1]))
    q = Seq(E, K, (), br=lambda st0, a, p: 1 if full(a, p, None) else 0 if each_sel(a, p, None) else st0, on=lambda st0, ev: (st0, st0 == 1 and fake(ev)), init=0)
    c.run(q, g)
    c.check(not q.bad, 'R4', 'no more decoys than wanted are used', at(q.bad[0]) if q.bad else where(g), construct='decoys in prepareInputs')
    sorts = lambda ev: ev.kind == 'call' and ev.name in ('sort', 'stable_sort') and any(isf(x, 'outs') for a in ev.args for x in subterms(a))
    c.gates('R4', g, K, {'sort': 'the decoys are in order'}, ev={'sort': sorts}, fresh=each_sel, targets=[('decoy', fake, {'sort'})], min_sites=1)
    for ev in hits(g, lambda ev: real(ev) or writes('transactionIndex')(ev) or sorts(ev) or fake(ev)):
        if real(ev):
            x = ev.args[0]
            c.check(not (isc(x, 'begin', 'end', 'cbegin', 'cend')), 'R4', 'the real output keeps the ring in order', at(ev), construct='place of the real output')
        elif writes('transactionIndex')(ev):
            r = stripc(strip(ev.rhs))
            c.check(const_of(r) is None and not isf(r, 'globalOutputIndex', 'outputInTransaction') and (has(r, lambda t: isc(t, 'insert', 'emplace', 'upper_bound', 'lower_bound', 'find_if', 'distance')) or has(r, ring) or strip(r)[0] in ('phi', 'var', 'obj')), 'R4', 'the position is that of the real output in the ring', at(ev), construct='position of the real output')
    lamb = [F.fns[i] for i in F.fns if i.startswith(g.id + '::$lambda')]
    for lf in lamb:
        for br_, ret in run(Ends(E, None), lf).out:
            vs = [x for x in subterms(ret) if x[0] == 'cmp']
            for x in vs:
                if any(isf(y, 'outputIndex') for y in x[2:]) and any(isf(y, 'globalOutputIndex') for y in x[2:]):
                    left = isf(x[2], 'outputIndex')
                    c.check(x[1] in ('<', '<=') and not left or x[1] in ('>', '>=') and left, 'R4', 'the real output is put before the first larger index', '%s in %s' % (lf.loc(), g.qn), construct='order of the real output')
                elif all(isf(y, 'global_amount_index') for y in x[2:]):
                    c.check(x[1] in ('<', '>') and (x[1] == '<') == (str(x[2]) < str(x[3]) or strip(strip(x[2])[1]) == ('param', 0)), 'R4', 'decoys are in ascending order', '%s in %s' % (lf.loc(), g.qn), construct='order of the decoys')
    # the decoys of an input are those of the same position
    ix = set()
    for ev in hits(g, lambda ev: ev.kind == 'call' and (sorts(ev) or fake(ev))):
        for a in ev.args:
            for t in subterms(a):
                if t[0] == 'idx' and par(1)(t[1]):
                    ix.add(stripc(strip(t[2])))
                elif isc(t, 'operator[]', 'at') and t[2] is not None and par(1)(t[2]):
                    ix.add(stripc(strip(t[3][0])))
    c.check(not any(const_of(i) is not None for i in ix), 'R4', 'the decoys belong to the input', where(g), construct='decoys of the input')
    cnts = {i[3] for i in ix if i[0] == 'phi'}
    for ev in hits(g, writes('transactionIndex')):
        c.check(stripc(strip(ev.rhs)) not in ix, 'R4', 'the position is that of the real output in the ring', at(ev), construct='position of the real output among the decoys')
    if cnts:
        step = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and (strip(ev.lhs)[1] in cnts or any(strip(ev.lhs)[1].startswith(str(x)) for x in cnts))
        follow(c, 'R4', 'the next input gets the next decoys', g, K, addk, done=lambda ev: step(ev) and (ev.op == '++' or ev.op == '+=' and const_of(ev.rhs) == 1), exits=lambda k, r: False)

    # R5: requestMixinOuts
    g = f['requestMixinOuts']
    ask = lambda ev: ev.kind == 'call' and ev.name == 'getRandomOutsByAmounts'
    suff = calls(g_mix.qn)
    amounts = pushed(lambda t: t[0] == 'obj')
    c.each('R5', 'decoys of every selected output are asked', g, K, par(0), done=lambda ev: amounts(ev) and amt(ev.args[0]), exits=lambda k, r: k == 'ret', no_inline=ALL)
    sizeof = lambda pred: (lambda t: isc(t, 'size') and t[2] is not None and pred(t[2]) or t[0] == 'size' and pred(t[1]))
    allof = lambda a, p, ev: eq(a, p, sizeof(par(2)), sizeof(lambda t: par(0)(t) or strip(t)[0] in ('obj', 'phi'))) or leq(a, p, sizeof(lambda t: par(0)(t) or strip(t)[0] in ('obj', 'phi')), sizeof(par(2)))
    c.gates('R5', g, K, {'run': 'the wallet is not stopped', 'ask': 'the node was asked', 'ok': 'the node answered without error', 'all': 'it answered for every input', 'enough': 'there are enough decoys'}, br={'ok': lambda a, p, ev: ec(a, p) == 0, 'all': allof}, ev={'run': calls(WG + 'throwIfStopped'), 'ask': ask, 'enough': suff},
            kills={'ok': ask, 'all': ask, 'enough': ask}, targets=[('node asked', ask, {'run'})], exits=lambda k, r: {'ask', 'ok', 'enough', 'all'} if k == 'ret' else None, no_inline=ALL, min_sites=2)
    for ev in hits(g, lambda ev: ask(ev) or suff(ev)):
        if ask(ev):
            c.check(is_lin(ev.args[1], 1, par(1)) or is_lin(ev.args[1], 0, par(1)) or any(x is not None and par(1)(x) for x in lin(ev.args[1])) and lin(ev.args[1]).get(None, 0) >= 0, 'R5', 'at least as many decoys as wanted are asked', at(ev), construct='number of decoys in requestMixinOuts')
            c.check(par(2)(ev.args[2]), 'R5', 'the answer is the one that is used', at(ev), construct='answer in requestMixinOuts')
        else:
            c.check(par(2)(ev.args[0]) and par(1)(ev.args[1]), 'R5', 'the answer is checked against the number wanted', at(ev), construct='arguments of checkIfEnoughMixins')
    g = g_mix
    few = lambda a, p, ev: lt(a, p, sizeof(lambda t: isf(t, 'outs')), par(1)) or lt(a, p, sizeof(lambda t: isf(t, 'outs')), lambda t: t[0] in ('cap', 'fld', 'phi', 'param'))
    follow(c, 'R5', 'a shortage of decoys ends the send', g, K, None, trig_br=few, done_br=noneleft, exits=okret)
    c.each('R5', 'every answer is checked', g, K, par(0), done_br=lambda a, p, ev: few(a, p, ev) or leq(a, p, lambda t: True, sizeof(lambda t: isf(t, 'outs'))), exits=okret) if False else None

    # R6: makeTransaction
    g = build
    rec, ams = par(0), lambda t: isf(t, 'amounts')
    tx = lambda t: isc(t, 'createTransaction') or strip(t)[0] in ('obj', 'phi', 'call', 'deref')
    addi = lambda ev: ev.kind == 'call' and ev.name == 'addInput'
    addo = lambda ev: ev.kind == 'call' and ev.name == 'addOutput'
    sign = lambda ev: ev.kind == 'call' and ev.name in ('signInputKey', 'signInputMultisignature')
    lst = lambda t: strip(t)[0] == 'obj' and 'pair' in str(strip(t)[2])
    pairs = pushed(lst)
    c.each('R6', 'every amount becomes an output', g, K, ams, done=lambda ev: pairs(ev) or addo(ev), exits=lambda k, r: False, no_inline=ALL)
    if hits(g, pairs):
        c.each('R6', 'every output is added', g, K, lst, done=addo, exits=okret, no_inline=ALL)
        for ev in hits(g, pairs):
            c.check(has(ev.args, lambda t: isf(t, 'receiver')), 'R6', 'the output goes to its receiver', at(ev), construct='receiver in makeTransaction')
    c.each('R6', 'every input is added', g, K, par(1), done=addi, exits=okret, no_inline=ALL, some=True)
    c.each('R6', 'every input is signed', g, K, par(1), done=sign, exits=okret, no_inline=ALL, some=True)
    c.gates('R6', g, K, {'in': 'the inputs were added', 'sig': 'the inputs were signed', 'outs': 'the outputs were added', 'x': 'the extra was added', 'u': 'the unlock time was set', 't': 'the lifetime was added'},
            br={'in': lambda a, p, ev: loop_more(E, a, p, par(1)) == 0, 'outs': lambda a, p, ev: loop_more(E, a, p, lambda t: lst(t) or rec(t)) == 0, 't': lambda a, p, ev: flag(a, p, par(5)) == 0}, ev={'in': addi, 'outs': addo, 'sig': sign, 'x': lambda ev: ev.kind == 'call' and ev.name == 'appendExtra' and has(ev.args, par(3)), 'u': lambda ev: ev.kind == 'call' and ev.name == 'setUnlockTime' and par(4)(ev.args[0]), 't': lambda ev: ev.kind == 'call' and ev.name == 'appendTTLToExtra' and has(ev.args, par(5))},
            targets=[('signature', sign, {'in', 'outs', 'x', 'u', 't'})], exits=lambda k, r: {'in', 'outs', 'x', 'u', 't'} if k == 'ret' else None, no_inline=ALL, min_sites=2)

    def last_signed(g):
        chg_ = lambda ev: ev.kind == 'call' and ev.name in ('addInput', 'addOutput', 'appendExtra', 'setUnlockTime', 'setExtraNonce', 'setPaymentId', 'setDeterministicTransactionSecretKey')
        q = Seq(E, K, ALL, on=lambda st0, ev: (1, False) if sign(ev) else (st0, st0 == 1 and chg_(ev)), init=0)
        c.run(q, g)
        c.check(not q.bad, 'R6', 'nothing changes after the first signature', at(q.bad[0]) if q.bad else where(g), construct='signatures of %s' % g.name)
    last_signed(g)
    for ev in hits(g, lambda ev: addi(ev) or addo(ev) or sign(ev)):
        a = ev.args
        if addi(ev):
            c.check(not fixed(a[0]), 'R6', 'the keys are those of the input', at(ev), construct='owner of the input in makeTransaction')
            c.check(has(a[0], lambda t: isc(t, 'makeAccountKeys')) and has(a[0], lambda t: isf(t, 'walletRecord')) or not has(a[0], lambda t: isc(t, 'makeAccountKeys')), 'R6', 'the input is added with the keys of its owner', at(ev), construct='keys in makeTransaction')
        elif sign(ev):
            i = stripc(strip(a[0]))
            c.check(const_of(i) is None, 'R6', 'every input gets its own signature', at(ev), construct='index of the signature')
    g = f['makeAccountKeys']
    for field, src in (('spendPublicKey', 'spendPublicKey'), ('spendSecretKey', 'spendSecretKey'), ('viewPublicKey', 'm_viewPublicKey'), ('viewSecretKey', 'm_viewSecretKey')):
        for ev in hits(g, writes(field)):
            c.check(isf(ev.rhs, src), 'R6', 'the keys are those of the address', at(ev), construct='%s in makeAccountKeys' % field)

    # R7: recording and sending
    g = f['validateSaveAndSendTransaction']
    txid = lambda t: isc(t, 'insertOutgoingTransactionAndPushEvent')
    ins, addu, send, keep = calls(WG + 'insertOutgoingTransactionAndPushEvent'), calls(WG + 'addUnconfirmedTransaction'), calls(WG + 'sendTransaction'), lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert', 'operator[]', 'try_emplace') and ev.obj is not None and isf(ev.obj, 'm_uncommitedTransactions')
    upd = calls(WG + 'updateTransactionStateAndPushEvent')
    state = lambda n: (lambda ev: upd(ev) and enumv(ev.args[1], n))
    scope = lambda ev: ev.kind == 'decl' and 'ScopeExit' in str(ev.type)
    guards = {'g1': {}, 'g2': {}}
    lamof = {}
    for ev in hits(g, lambda ev: scope(ev) or ev.kind == 'ctor' or ev.kind == 'lambda'):
        for l in lams(ev.term) + [x for a in (ev.args or ()) for x in lams(a)] if ev.term is not None or ev.args else []:
            lf = F.fns.get(l)
            if lf is None:
                continue
            hs = run(Hits(E, K, lambda e: state('FAILED')(e) or calls(WG + 'removeUnconfirmedTransaction')(e), no_inline=ALL), lf).hits
            for h in hs:
                kind = 'g1' if upd(h) else 'g2'
                if scope(ev):
                    guards[kind][ev.var] = lf
                else:
                    lamof[l] = kind
    # the declaration and the lambda are tied by line when the term is not kept
    if not (guards['g1'] and guards['g2']):
        decls = hits(g, scope)
        for ev in hits(g, lambda ev: ev.kind == 'ctor' and 'ScopeExit' in str(ev.term)):
            for l in [x for a in (ev.args or ()) for x in lams(a)] + lams(ev.term):
                for d in decls:
                    if d.line == ev.line and l in lamof:
                        guards[lamof[l]][d.var] = F.fns[l]
    isvar = lambda kind: (lambda t: strip(t)[0] in ('obj', 'var') and strip(t)[1] in guards[kind])
    built = lambda kind: (lambda ev: scope(ev) and ev.var in guards[kind])
    cancel = lambda kind: (lambda ev: ev.kind == 'call' and ev.name == 'cancel' and ev.obj is not None and isvar(kind)(ev.obj))
    c.check(bool(guards['g1']), 'R7', 'a failed send is marked as failed', where(g), construct='guard of the record')
    c.check(bool(guards['g2']), 'R7', 'a failed send frees its outputs', where(g), construct='guard of the outputs')
    for kind in guards:
        for v, lf in guards[kind].items():
            act = state('FAILED') if kind == 'g1' else calls(WG + 'removeUnconfirmedTransaction')
            c.gates('R7', lf, K, {'act': 'the undoing is unconditional'}, ev={'act': act}, exits=lambda k, r: {'act'} if k == 'ret' else None, no_inline=ALL, min_sites=1)
    tooBig = lambda lim, v: (lambda a, p, ev: leq(a, p, lambda t: has(t, lambda x: isc(x, 'size', 'getTransactionSize') or x[0] == 'size'), lim) or boolp(a, p, par(2)) == v)
    c.gates('R7', g, K, {'s': 'it is not too big', 'fs': 'a fusion is not too big', 'p': 'it can be read back', 'rec': 'it is recorded', 'tr': 'its transfers are recorded', 'g1': 'the record is guarded', 'out': 'its outputs are locked', 'g2': 'the lock is guarded', 'send': 'it is to be sent', 'keep': 'it is to be kept', 'sent': 'it was relayed', 'done': 'it was relayed or kept', 'ok': 'it is marked as sent', 'c1': 'the record stays', 'c2': 'the outputs stay locked', 'fc': 'the kind of transaction is remembered'},
            br={'s': tooBig(lambda t: isf(t, 'm_upperTransactionSizeLimit') or isc(t, 'transactionMaxSize'), 1), 'fs': tooBig(lambda t: isc(t, 'fusionTxMaxSize'), 0), 'p': lambda a, p, ev: truth_of(a, p, 'fromBinaryArray') == 1, 'send': lambda a, p, ev: flag(a, p, par(3)) == 1, 'keep': lambda a, p, ev: flag(a, p, par(3)) == 0, 'ok': lambda a, p, ev: flag(a, p, par(3)) == 0},
            ev={'rec': ins, 'tr': calls(WG + 'pushBackOutgoingTransfers'), 'g1': built('g1'), 'out': addu, 'g2': built('g2'), 'sent': send, 'done': lambda ev: send(ev) or keep(ev), 'ok': state('SUCCEEDED'), 'c1': cancel('g1'), 'c2': cancel('g2'), 'fc': lambda ev: ev.kind == 'call' and ev.obj is not None and isf(ev.obj, 'm_fusionTxsCache')},
            targets=[('recorded', ins, {'s', 'fs', 'p'}), ('transfers recorded', calls(WG + 'pushBackOutgoingTransfers'), {'rec', 'g1'}), ('outputs locked', addu, {'g1', 'tr'}), ('relayed', send, {'s', 'fs', 'p', 'rec', 'g1', 'out', 'g2', 'send', 'tr'}), ('kept', keep, {'rec', 'g1', 'out', 'g2', 'keep', 'tr'}), ('marked as sent', state('SUCCEEDED'), {'sent'}), ('record stays', cancel('g1'), {'done'}), ('outputs stay locked', cancel('g2'), {'done'})],
            exits=lambda k, r: {'done', 'c1', 'c2', 'ok', 'fc'} if k == 'ret' else None, no_inline=ALL, min_sites=7)
    ends = Ends(E, K)
    ends.no_inline = ALL
    c.run(ends, g)
    for br_, ret in ends.out:
        c.check(txid(ret), 'R7', 'the number of the record is returned', where(g), construct='value of validateSaveAndSendTransaction')
    for ev in hits(g, lambda ev: ins(ev) or upd(ev) or keep(ev) or calls(WG + 'pushBackOutgoingTransfers')(ev) or addu(ev)):
        a = ev.args
        if ins(ev):
            fee = a[1]
            okf = is_lin(fee, 0, lambda t: isc(t, 'getInputTotalAmount'), (lambda t: isc(t, 'getOutputTotalAmount'), -1)) or const_of(fee) is not None or strip(fee)[0] in ('glob', 'phi', 'cond')
            c.check(okf and isc(a[0], 'getTransactionHash'), 'R7', 'the record has the hash and the fee of the transaction', at(ev), construct='record of the transaction')
        elif upd(ev):
            c.check(txid(a[0]), 'R7', 'the state is that of the record', at(ev), construct='state of the record')
        elif keep(ev):
            c.check(has(a[0], txid), 'R7', 'the transaction is kept under its number', at(ev), construct='number of the kept transaction')
        elif addu(ev):
            c.check(par(0)(a[0]), 'R7', 'the outputs of the transaction are locked', at(ev), construct='transaction locked')
        else:
            c.check(txid(a[0]) and par(1)(a[1]), 'R7', 'all transfers are recorded under its number', at(ev), construct='transfers of the record')
    g = f['pushBackOutgoingTransfers']
    mt = pushed(lambda t: isf(t, 'm_transfers'))
    c.each('R7', 'every transfer is recorded', g, K, par(1), done=mt, exits=okret)
    c.gates('R7', g, K, {x: 'it has its ' + x for x in ('type', 'address', 'amount')}, ev={x: (lambda ev, x=x: writes(x)(ev) and isf(ev.rhs, x)) for x in ('type', 'address', 'amount')}, fresh=lambda a, p, ev: loop_more(E, a, p, par(1)) == 1, targets=[('transfer', lambda ev: mt(ev) and strip(ev.args[-1])[0] == 'obj' and 'WalletTransfer' in str(strip(ev.args[-1])[2]), {'type', 'address', 'amount'})], min_sites=0)
    for ev in hits(g, mt):
        c.check(has(ev.args, par(0)), 'R7', 'the transfer has the number of its transaction', at(ev), construct='number of the transfer')
    g = f['insertOutgoingTransactionAndPushEvent']
    newtx = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and has(ev.obj, lambda t: isf(t, 'm_transactions'))
    c.gates('R7', g, K, {'st': 'it is new', 'fee': 'it has its fee', 'hash': 'it has its hash', 'h': 'it is unconfirmed', 'ev': 'it is reported', 'rec': 'it is recorded', 'u': 'it has its unlock time'}, ev={'st': lambda ev: writes('state')(ev) and enumv(ev.rhs, 'CREATED'), 'fee': lambda ev: writes('fee')(ev) and par(1)(ev.rhs), 'hash': lambda ev: writes('hash')(ev) and par(0)(ev.rhs), 'h': writes('blockHeight'), 'u': lambda ev: writes('unlockTime')(ev) and par(3)(ev.rhs), 'ev': calls(WG + 'pushEvent'), 'rec': newtx},
            targets=[('recorded', newtx, {'st', 'fee', 'hash', 'h', 'u'}), ('reported', calls(WG + 'pushEvent'), {'rec'})], exits=lambda k, r: {'rec', 'ev'} if k == 'ret' else None, no_inline=ALL, min_sites=2)
    for ev in hits(g, writes('blockHeight')):
        c.check(const_of(ev.rhs) in (0xffffffff,) or not isinstance(const_of(ev.rhs), int), 'R7', 'it is unconfirmed', at(ev), construct='height of the record')
    q = Seq(E, K, ALL, on=lambda st0, ev: (1, False) if newtx(ev) else (st0, False), init=0)
    ends = Ends(E, K)
    ends.no_inline = ALL
    c.run(ends, g)
    for br_, ret in ends.out:
        x = stripc(strip(ret))
        d = lin(x)
        c.check(d.get(None, 0) in (0, -1) and has(x, lambda t: isc(t, 'size') or t[0] == 'size'), 'R7', 'the number of the record is its index', where(g), construct='value of insertOutgoingTransactionAndPushEvent')
    sized_after = Seq(E, K, ALL, on=lambda st0, ev: (1, False) if newtx(ev) else (st0, st0 == 1 and ev.kind == 'decl' and ev.term is not None and (isc(ev.term, 'size') or strip(ev.term)[0] == 'size')), init=0)
    c.run(sized_after, g)
    c.check(not sized_after.bad, 'R7', 'the number of the record is its index', at(sized_after.bad[0]) if sized_after.bad else where(g), construct='index of the record')
    g = f['sendTransaction']
    relay = lambda ev: ev.kind == 'call' and ev.name == 'relayTransaction'
    c.gates('R7', g, K, {'run': 'the wallet is not stopped', 'relay': 'it was relayed', 'ok': 'the node answered without error'}, br={'ok': lambda a, p, ev: ec(a, p) == 0}, ev={'run': calls(WG + 'throwIfStopped'), 'relay': relay}, kills={'ok': relay}, targets=[('relay', relay, {'run'})], exits=lambda k, r: {'relay', 'ok'} if k == 'ret' else None, no_inline=ALL, min_sites=2)
    for ev in hits(g, relay):
        c.check(par(0)(ev.args[0]), 'R7', 'the transaction is the one that is sent', at(ev), construct='transaction in sendTransaction')
    unc = lambda t: isf(t, 'm_uncommitedTransactions')
    created = lambda a, p, ev: is_enum(a, p, lambda t: isf(t, 'state'), 'CREATED')
    isunc = lambda a, p, ev: flag(a, p, lambda t: isc(t, 'count') and t[2] is not None and unc(t[2])) == 1 or ne(a, p, lambda t: isc(t, 'find') and unc(t[2]), lambda t: isc(t, 'end')) or a[0] == 'in' and p == 1 and unc(a[1])
    known = lambda a, p, ev: lt(a, p, par(0), lambda t: isc(t, 'size') or t[0] == 'size')
    forget = lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and unc(ev.obj)
    freed = calls(WG + 'removeUnconfirmedTransaction')
    LABELS = {'known': 'the transaction is known', 'unc': 'it is uncommitted', 'cr': 'it is new', 'relay': 'it was relayed', 'ok': 'the node answered without error', 'sent': 'it is marked as sent', 'gone': 'it is no longer uncommitted', 'freed': 'its outputs are free'}
    g = f['commitTransaction']
    c.gates('R7', g, K, LABELS, br={'known': known, 'unc': isunc, 'cr': created, 'ok': lambda a, p, ev: ec(a, p) == 0}, ev={'relay': relay, 'sent': state('SUCCEEDED'), 'gone': forget}, kills={'ok': relay}, targets=[('relay', relay, {'known', 'unc', 'cr'}), ('marked as sent', state('SUCCEEDED'), {'relay', 'ok'}), ('forgotten', forget, {'relay', 'ok'})], exits=lambda k, r: {'relay', 'ok', 'sent', 'gone'} if k == 'ret' else None, no_inline=ALL, min_sites=4)
    for ev in hits(g, lambda ev: relay(ev) or upd(ev) or forget(ev)):
        c.check(has(ev.args[0], par(0)), 'R7', 'the transaction is the one that was asked for', at(ev), construct='%s in commitTransaction' % ev.name)
        if relay(ev):
            c.check(has(ev.args[0], unc), 'R7', 'the uncommitted transaction is relayed', at(ev), construct='transaction in commitTransaction')
    g = f['rollbackUncommitedTransaction']
    c.gates('R7', g, K, LABELS, br={'known': known, 'unc': isunc, 'cr': created}, ev={'freed': freed, 'gone': forget}, targets=[('outputs freed', freed, {'known', 'unc', 'cr'}), ('forgotten', forget, {'known', 'unc', 'cr', 'freed'})], exits=lambda k, r: {'freed', 'gone'} if k == 'ret' else None, no_inline=ALL, min_sites=3)
    for ev in hits(g, lambda ev: freed(ev) or forget(ev)):
        c.check(has(ev.args[0], par(0)), 'R7', 'the transaction is the one that was asked for', at(ev), construct='%s in rollbackUncommitedTransaction' % ev.name)
    g = f['updateTransactionStateAndPushEvent']
    newst = lambda ev: writes('state')(ev) and par(1)(ev.rhs)
    mods = [x for x in F.fns.values() if x.id.startswith(g.id + '::$lambda')]
    setter = any(run(Hits(E, None, writes('state')), x).hits for x in mods) or bool(hits(g, writes('state')))
    c.check(setter, 'R7', 'the state changes', where(g), construct='state in updateTransactionStateAndPushEvent')
    modify = lambda ev: newst(ev) or ev.kind == 'call' and ev.name == 'modify'
    c.gates('R7', g, K, {'set': 'the state is the new one', 'ev': 'it is reported'}, br={x: (lambda a, p, ev: eq(a, p, lambda t: isf(t, 'state'), par(1))) for x in ('set', 'ev')}, ev={'set': modify, 'ev': calls(WG + 'pushEvent')}, exits=lambda k, r: {'set', 'ev'} if k == 'ret' else None, no_inline=ALL, min_sites=1)

    # R8: guards
    init, track, stop = calls(WG + 'throwIfNotInitialized'), calls(WG + 'throwIfTrackingMode'), calls(WG + 'throwIfStopped')
    eventlock = lambda ev: ev.kind == 'decl' and 'EventLock' in str(ev.type)
    trs = [x for x in F.q(WG + 'transfer')]
    acts = calls(WG + 'doTransfer', WG + 'validateSaveAndSendTransaction', WG + 'selectTransfers', WG + 'pickWallets', WG + 'pickRandomFusionInputs', WG + 'prepareTransaction', WG + 'removeUnconfirmedTransaction')
    anyact = lambda ev: acts(ev) or relay(ev) or forget(ev) or (ev.kind == 'call' and ev.name in ('addInput', 'addOutput', 'getTransfer'))
    ents = [(x, True) for x in trs] + [(pub, True), (f['commitTransaction'], True), (f['rollbackUncommitedTransaction'], True), (f['createFusionTransaction'], True), (F.q1(WG + 'getTxSize'), True), (f['createDeposit'], False), (f['withdrawDeposit'], False)]
    for g, lock in ents:
        need_ = {'init', 'track', 'stop'} | ({'lock'} if lock else set())
        if g.name == 'transfer':
            allc = hits(g, lambda ev: ev.kind == 'call')
            if not any(acts(ev) for ev in allc):
                continue      # an overload that calls another one
        c.gates('R8', g, K, {'init': 'the wallet is initialised', 'track': 'the wallet holds its keys', 'stop': 'the wallet is not stopped', 'lock': 'no other operation runs'}, ev={'init': init, 'track': track, 'stop': stop, 'lock': eventlock}, targets=[('spends', anyact, need_)], no_inline=ALL, min_sites=1)
    g = f['throwIfNotInitialized']
    c.gates('R8', g, K, {'ok': 'the wallet is initialised'}, br={'ok': lambda a, p, ev: is_enum(a, p, lambda t: isf(t, 'm_state'), 'INITIALIZED')}, exits=lambda k, r: {'ok'} if k == 'ret' else None, min_sites=1)
    c.gates('R8', f['throwIfStopped'], K, {'ok': 'the wallet is not stopped'}, br={'ok': fl('m_stopped', 0)}, exits=lambda k, r: {'ok'} if k == 'ret' else None, min_sites=1)
    tm = lambda a, p, ev: not_enum(a, p, lambda t: isc(t, 'getTrackingMode'), 'TRACKING') or is_enum(a, p, lambda t: isc(t, 'getTrackingMode'), 'NOT_TRACKING', 'NO_ADDRESSES')
    c.gates('R8', f['throwIfTrackingMode'], K, {'ok': 'the wallet holds its keys'}, br={'ok': tm}, exits=lambda k, r: {'ok'} if k == 'ret' else None, no_inline=(WG + 'getTrackingMode',), min_sites=1)
    g = f['doTransfer']
    c.gates('R8', g, K, {'v': 'the request is valid'}, ev={'v': calls(WG + 'validateTransactionParameters')}, targets=[('outputs picked', calls(WG + 'pickWallets', WG + 'pickWalletsWithMoney'), {'v'}), ('transaction prepared', calls(WG + 'prepareTransaction'), {'v'}), ('change address', calls(WG + 'getChangeDestination'), {'v'})], no_inline=ALL, min_sites=3)
    g = f['validateTransactionParameters']
    c.gates('R8', g, K, {'some': 'there is a destination', 'src': 'the sources are valid', 'chg': 'the change address is valid', 'ord': 'the orders are valid'}, br={'some': lambda a, p, ev: truth_of(a, p, 'empty') == 0 or a[0] == 'empty' and p == 0 and isf(a[1], 'destinations')}, ev={'src': calls(WG + 'validateSourceAddresses'), 'chg': calls(WG + 'validateChangeDestination'), 'ord': calls(WG + 'validateOrders')}, exits=lambda k, r: {'some', 'src', 'chg', 'ord'} if k == 'ret' else None, no_inline=ALL, min_sites=1)
    g = f['validateOrders']
    valid = lambda a, p, ev: truth_of(a, p, 'validateAddress') == 1
    c.each('R8', 'the address of every order is valid', g, K, par(0), done_br=valid, exits=okret, no_inline=())
    c.each('R8', 'the amount of every order fits', g, K, par(0), done_br=lambda a, p, ev: fits64(a, p, ev) or lt(a, p, amt, lambda t: True), exits=okret)
    follow(c, 'R8', 'an invalid address ends the send', g, K, None, trig_br=lambda a, p, ev: truth_of(a, p, 'validateAddress') == 0, exits=okret)
    g = f['validateSourceAddresses']
    mine = lambda v: (lambda a, p, ev: truth_of(a, p, 'isMyAddress') == v)
    follow(c, 'R8', 'a source that is not an own address ends the send', g, K, None, trig_br=mine(0), done_br=noneleft, exits=okret, no_inline=ALL)
    c.each('R8', 'every source is examined', g, K, par(0), done_br=lambda a, p, ev: mine(0)(a, p, ev) or mine(1)(a, p, ev), exits=lambda k, r: False, no_inline=ALL, some=True)
    g = f['validateChangeDestination']
    follow(c, 'R8', 'a change address that is not an own one ends the send', g, K, None, trig_br=mine(0), exits=okret, no_inline=ALL)
    c.gates('R8', g, K, {'own': 'the change address is an own one, or the only source gets it'}, br={'own': lambda a, p, ev: mine(1)(a, p, ev) or a[0] == 'empty' and p == 1 or truth_of(a, p, 'empty') == 1}, ev={}, exits=lambda k, r: None, no_inline=ALL, min_sites=0)
    nochange = lambda a, p, ev: a[0] == 'empty' and p == 1 and par(1)(a[1])
    one = lambda a, p, ev: any(g_(a, p, lambda t: sizeof(lambda x: par(0)(x) or has(x, lambda y: isf(y, 'm_walletsContainer')))(strip(t)), lambda t: const_of(t) == 1) for g_ in (eq, leq))
    for br_, ret in (lambda q: (setattr(q, 'no_inline', ALL), c.run(q, g), q)[2])(Ends(E, K)).out:
        d = dict(br_)
        if any(nochange(a, p, None) for a, p in br_):
            c.check(any(one(a, p, None) for a, p in br_), 'R8', 'without a change address there is exactly one candidate', where(g), construct='missing change address')
        elif any(a[0] == 'empty' and p == 0 and par(1)(a[1]) for a, p in br_):
            c.check(any(mine(1)(a, p, None) for a, p in br_), 'R8', 'the change address is an own one', where(g), construct='change address')

    # R9: sources
    unlocked = lambda ev: ev.kind == 'call' and ev.name == 'getOutputs'
    for n in ('pickWallet', 'pickWalletsWithMoney'):
        g = f[n]
        hs = hits(g, unlocked)
        c.check(bool(hs), 'R9', 'the outputs are those of the address', where(g), construct='outputs of %s' % n)
        for ev in hs:
            fl_ = ev.args[1] if len(ev.args) > 1 else ('?',)
            names_ = str(fl_)
            k = const_of(fl_)
            ok_k = enumv(fl_, 'IncludeKeyUnlocked') or isinstance(k, int) and k == 0x101
            c.check(ok_k, 'R9', 'only unlocked outputs are spent', at(ev), construct='outputs of %s' % n)
        setw = lambda ev: writes('wallet')(ev)
        c.check(bool(hits(g, setw)), 'R9', 'the outputs have their owner', where(g), construct='owner in %s' % n)
    pk = calls(WG + 'pickWallet')
    for ev in hits(f['pickWallets'], pk):
        c.check(not fixed(ev.args[0]), 'R9', 'every source is used', at(ev), construct='source in pickWallets')
    c.each('R9', 'every source is used', f['pickWallets'], K, par(0), done=pk, done_br=lambda a, p, ev: a[0] == 'cmp' and any(isc(x, 'insert', 'find', 'count') for x in subterms(a)) or isc(strip(a), 'insert', 'count') or isf(a, 'second') or a[0] == 'in', exits=okret, no_inline=ALL)
    again = lambda ev: pk(ev)
    once = lambda a, p, ev: any(isc(x, 'insert', 'find', 'count', 'emplace') or x[0] == 'in' for x in subterms(a))
    c.gates('R9', f['pickWallets'], K, {'once': 'no source is used twice'}, br={'once': once}, fresh=lambda a, p, ev: loop_more(E, a, p, par(0)) == 1, targets=[('source', pk, {'once'})], no_inline=ALL, min_sites=1)
    g = f['doTransfer']
    srcs = lambda t: isf(t, 'sourceAddresses')
    nosrc, issrc = (lambda a, p, ev: a[0] == 'empty' and p == 1 and srcs(a[1]) or eq(a, p, sizeof(srcs), lambda t: const_of(t) == 0)), (lambda a, p, ev: a[0] == 'empty' and p == 0 and srcs(a[1]) or ne(a, p, sizeof(srcs), lambda t: const_of(t) == 0))
    c.gates('R9', g, K, {'any': 'no source was chosen'}, br={'any': nosrc}, targets=[('all addresses', calls(WG + 'pickWalletsWithMoney'), {'any'})], no_inline=ALL, min_sites=1)
    PT = ('destinations', 'messages', 'fee', 'mixIn', 'extra', 'unlockTimestamp', 'donation')
    for ev in hits(g, lambda ev: calls(WG + 'prepareTransaction', WG + 'pickWallets', WG + 'getChangeDestination', WG + 'validateSaveAndSendTransaction')(ev)):
        if ev.name == 'prepareTransaction':
            for i, n in enumerate(PT):
                c.check(isf(ev.args[i + 1], n), 'R9', 'the transaction is that of the request', at(ev), construct='%s in doTransfer' % n)
            c.check(isc(ev.args[8], 'getChangeDestination') or strip(ev.args[8])[0] in ('obj', 'phi'), 'R9', 'the change goes to the chosen address', at(ev), construct='change in doTransfer')
            c.check(isf(ev.args[9], 'ttl'), 'R9', 'the lifetime is that of the request', at(ev), construct='ttl in doTransfer')
        elif ev.name == 'pickWallets':
            c.check(srcs(ev.args[0]), 'R9', 'the chosen sources are used', at(ev), construct='sources in doTransfer')
        elif ev.name == 'getChangeDestination':
            c.check(isf(ev.args[0], 'changeDestination') and srcs(ev.args[1]), 'R9', 'the change address is that of the request', at(ev), construct='change address in doTransfer')
        else:
            c.check(const_of(ev.args[2]) == 0 or ev.args[2] == FALSE, 'R9', 'a transfer is no fusion', at(ev), construct='kind in doTransfer')
            c.check(par(2)(ev.args[3]), 'R9', 'it is sent only if asked', at(ev), construct='sending in doTransfer')
            c.check(isf(ev.args[1], 'destinations'), 'R9', 'the recorded transfers are those of the transaction', at(ev), construct='transfers in doTransfer')
    for ev in hits(pub, calls(WG + 'doTransfer')):
        c.check(ev.args[2] == FALSE or const_of(ev.args[2]) == 0, 'R9', 'a transaction that is made is not sent', at(ev), construct='sending in makeTransaction')
    for g in trs:
        for ev in hits(g, calls(WG + 'doTransfer')):
            c.check(ev.args[2] == TRUE or const_of(ev.args[2]) == 1, 'R9', 'a transfer is sent', at(ev), construct='sending in transfer')
    g = f['getChangeDestination']
    ends = Ends(E, K)
    ends.no_inline = ALL
    c.run(ends, g)
    for br_, ret in ends.out:
        given_ = [p for a, p in br_ if a[0] == 'empty' and par(0)(a[1])]
        src_ = [p for a, p in br_ if a[0] == 'empty' and par(1)(a[1])]
        if given_ and given_[0] == 0:
            c.check(has(ret, par(0)) and not has(ret, par(1)), 'R9', 'a given change address is used', where(g), construct='given change address')
        elif src_ and src_[0] == 0:
            c.check(has(ret, par(1)), 'R9', 'otherwise the change returns to the source', where(g), construct='change to the source')
    # R10: deposits and fusion
    g = f['withdrawDeposit']
    dep = lambda t: isc(t, 'getDeposit') or strip(t)[0] in ('obj', 'phi')
    svs = calls(WG + 'validateSaveAndSendTransaction')
    gett = lambda ev: ev.kind == 'call' and ev.name == 'getTransfer'
    tav = lambda a, p, ev: is_enum(a, p, lambda t: True, 'TransferAvailable')
    c.gates('R10', g, K, {'ex': 'the deposit exists', 'unl': 'its term has ended', 'found': 'its output is known', 'av': 'its output is available', 'asked': 'its output was looked up'}, br={'ex': lambda a, p, ev: lt(a, p, par(0), sizeof(lambda t: isf(t, 'm_deposits'))), 'unl': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'unlockHeight'), lambda t: isc(t, 'getBlockCount') or strip(t)[0] in ('phi', 'var')), 'found': lambda a, p, ev: truth_of(a, p, 'getTransfer') == 1, 'av': tav},
            ev={'asked': gett}, targets=[('read', calls(WG + 'getDeposit'), {'ex'}), ('sent', svs, {'ex', 'unl', 'found', 'av', 'asked'}), ('input', addi, {'ex', 'unl', 'found', 'av'}), ('signature', sign, {'unl', 'av'})], no_inline=ALL, min_sites=3)
    worth = lambda t: is_lin(t, -10, lambda x: isf(x, 'amount'), lambda x: isf(x, 'interest')) or is_lin(t, -10, lambda x: isf(x, 'amount') or isf(x, 'interest'), lambda x: isf(x, 'interest') or isf(x, 'amount'))
    for ev in hits(g, lambda ev: gett(ev) or ev.kind == 'call' and ev.name in ('split', 'decomposeAmount') or sign(ev) or addo(ev) or ev.kind == 'call' and ev.name == 'getWalletRecord'):
        if gett(ev):
            c.check(isf(ev.args[0], 'transactionHash') and isf(ev.args[1], 'outputInTransaction'), 'R10', 'the output is that of the deposit', at(ev), construct='output in withdrawDeposit')
        elif ev.name in ('split', 'decomposeAmount'):
            d = lin(ev.args[0])
            k = d.get(None, 0)
            ok_ = (len([x for x in d if x is not None]) == 2 and any(isf(x, 'amount') for x in d if x is not None) and any(isf(x, 'interest') for x in d if x is not None) and all(n == 1 for x, n in d.items() if x is not None) and -1000 <= k <= 0) or not any(isf(x, 'amount') or isf(x, 'interest') for x in d if x is not None)
            c.check(ok_, 'R10', 'the amount and the interest are paid out', at(ev), construct='amount in withdrawDeposit')
    paid = lambda t: isc(t, 'split') or strip(t)[0] in ('obj', 'phi')
    c.each('R10', 'everything is paid out', g, K, lambda t: isc(t, 'split') or strip(t)[0] == 'obj' and 'unsigned long' in str(strip(t)[2]), done=addo, exits=lambda k, r: False, no_inline=ALL)
    c.gates('R10', g, K, {'in': 'the input is added', 'outs': 'the amount is paid out', 'sig': 'the input is signed'}, br={'outs': lambda a, p, ev: loop_more(E, a, p, paid) == 0, 'in': lambda a, p, ev: loop_more(E, a, p, lambda t: isc(t, 'prepareMultisignatureInputs')) == 0, 'sig': lambda a, p, ev: loop_more(E, a, p, lambda t: isc(t, 'prepareMultisignatureInputs') or strip(t)[0] == 'obj') == 0 or leq(a, p, sizeof(lambda t: True), lambda t: strip(t)[0] == 'phi')}, ev={'in': addi, 'outs': addo, 'sig': sign},
            targets=[('sent', svs, {'in', 'outs', 'sig'})], no_inline=ALL, min_sites=1)
    last_signed(g)
    g = f['createDeposit']
    needp = lambda t: has(t, par(0))
    fnd = lambda t: isc(t, 'selectTransfers') or strip(t)[0] == 'phi'
    depo = lambda ev: addo(ev) and len(ev.args) >= 4
    safe = lambda a, p, ev: leq(a, p, par(0), lambda t: has(t, lambda x: x[0] in ('op', 'param') or isc(x, 'max')) or const_of(t) is not None) or lt(a, p, par(0), lambda t: const_of(t) is not None or has(t, lambda x: isc(x, 'max'))) or leq(a, p, par(0), lambda t: is_lin(t, 1000, par(0)) or len(lin(t)) == 2)
    enoughd = lambda a, p, ev: leq(a, p, needp, fnd)
    c.gates('R10', g, K, {'ovf': 'amount and fee do not overflow', 'found': 'the selected outputs are worth it', 'own': 'the source is an own address', 'empty': 'nothing is selected yet', 'mix': 'decoys were obtained', 'dep': 'the deposit is an output', 'in': 'the inputs are prepared', 'ai': 'the inputs are added', 'sig': 'the inputs are signed', 'chg': 'the change is paid out', 'split': 'the change was split'},
            br={'ovf': safe, 'found': enoughd, 'chg': lambda a, p, ev: loop_more(E, a, p, lambda t: lst(t) or isc(t, 'split')) == 0, 'ai': lambda a, p, ev: loop_more(E, a, p, lambda t: strip(t)[0] == 'obj' and 'InputInfo' in str(strip(t)[2])) == 0, 'sig': lambda a, p, ev: loop_more(E, a, p, lambda t: strip(t)[0] == 'obj' and 'InputInfo' in str(strip(t)[2])) == 0},
            ev={'own': calls(WG + 'validateSourceAddresses'), 'empty': lambda ev: fresh0(ev) or ev.kind == 'decl' and 'OutputToTransfer' in str(ev.type), 'mix': mix, 'dep': depo, 'in': inp, 'ai': addi, 'sig': sign, 'chg': lambda ev: addo(ev) and not depo(ev), 'split': lambda ev: ev.kind == 'call' and ev.name in ('split', 'decomposeAmount', 'splitAmount')},
            kills={'found': sel, 'mix': sel, 'empty': sel}, targets=[('selection', sel, {'ovf', 'own', 'empty'}), ('inputs', inp, {'found', 'mix'}), ('deposit', depo, {'found'}), ('sent', svs, {'dep', 'in', 'ai', 'sig', 'chg', 'split'})], no_inline=ALL, min_sites=4)
    for ev in hits(g, lambda ev: sel(ev) or depo(ev) or ev.kind == 'call' and ev.name in ('split', 'decomposeAmount') or mix(ev) or inp(ev) or svs(ev)):
        if sel(ev):
            c.check(is_lin(ev.args[0], 1000, par(0)) or any(x is not None and par(0)(x) for x in lin(ev.args[0])) and (lin(ev.args[0]).get(None, 0) > 0 or len(lin(ev.args[0])) == 2), 'R10', 'the amount and the fee are selected', at(ev), construct='amount selected in createDeposit')
        elif depo(ev):
            c.check(is_lin(ev.args[0], 0, par(0)), 'R10', 'the deposit has the amount', at(ev), construct='amount in createDeposit')
            c.check(par(1)(ev.args[3]), 'R10', 'the deposit has the term', at(ev), construct='term in createDeposit')
            c.check(const_of(ev.args[2]) == 1, 'R10', 'one signature spends the deposit', at(ev), construct='signatures in createDeposit')
        elif ev.name in ('split', 'decomposeAmount'):
            d = lin(ev.args[0])
            both = dict(d)
            for e2 in hits(g, sel):
                for x, n in lin(e2.args[0]).items():
                    both[x] = both.get(x, 0) + n
            both = {x: n for x, n in both.items() if n}
            c.check(not any(x is not None and par(0)(x) for x in d) or len(both) == 1 and all(x is not None and fnd(x) and n == 1 for x, n in both.items()), 'R10', 'the change is all that remains', at(ev), construct='amount of the change in createDeposit')
            c.check(any(x is not None and fnd(x) and n == 1 for x, n in d.items()) and any(x is not None and par(0)(x) and n == -1 for x, n in d.items()) and (d.get(None, 0) < 0 or len(d) == 3) or not any(x is not None and par(0)(x) for x in d) and d.get(None, 0) == 0 and len(d) <= 2, 'R10', 'the change is what remains', at(ev), construct='change in createDeposit')
    last_signed(g)
    g = f['createFusionTransaction']
    fus = lambda t: isc(t, 'pickRandomFusionInputs') or strip(t)[0] in ('phi', 'obj')
    minin = lambda a, p, ev: leq(a, p, lambda t: isc(t, 'fusionTxMinInputCount'), sizeof(fus))
    popped = lambda ev: ev.kind == 'call' and ev.name in ('pop_back', 'erase', 'resize') and ev.obj is not None and fus(ev.obj)
    c.gates('R10', g, K, {'thr': 'the threshold exceeds dust', 'own': 'the sources are own addresses', 'dest': 'the destination is an own address', 'min': 'there are enough inputs', 'some': 'there is an output', 'mix': 'decoys were obtained, or none are wanted'}, br={'thr': lambda a, p, ev: lt(a, p, lambda t: isc(t, 'defaultDustThreshold'), par(0)), 'min': minin, 'some': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'getOutputCount')) == 1, 'mix': lambda a, p, ev: flag(a, p, par(1)) == 0},
            ev={'own': calls(WG + 'validateSourceAddresses'), 'dest': calls(WG + 'validateChangeDestination'), 'mix': mix}, kills={'min': popped}, targets=[('inputs picked', calls(WG + 'pickRandomFusionInputs'), {'thr', 'own', 'dest'}), ('inputs prepared', inp, {'min', 'mix'}), ('sent', svs, {'min', 'some'})], no_inline=ALL, min_sites=3)
    for ev in hits(g, lambda ev: svs(ev)):
        c.check((ev.args[2] == TRUE or const_of(ev.args[2]) == 1), 'R10', 'it is sent as a fusion', at(ev), construct='kind in createFusionTransaction')
    q = Seq(E, K, ALL, on=lambda st0, ev: ((st0 ^ 1), False) if popped(ev) else ((st0 ^ 1), False) if ev.kind == 'call' and ev.name == 'pop_back' and 'InputInfo' in str(strip(ev.obj)) else (st0, st0 == 1 and mk(ev)), init=0)
    c.run(q, g)
    c.check(not q.bad, 'R10', 'the inputs and the amounts stay together', at(q.bad[0]) if q.bad else where(g), construct='inputs dropped in createFusionTransaction')
