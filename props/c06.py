from .common import *

META = dict(
    title='A transaction passes the semantic check only if well formed and balanced',
    statement='The semantic check of a transaction succeeds only if it has inputs, every input is a key or (from version 2) multisignature input, every output has a valid kind, key and (for deposits) term and amount, neither the inputs nor the outputs overflow 64 bits, the inputs (with interest) are worth at least the outputs, and no key image and no multisignature output is used twice. The amounts compared are the sums over all inputs and all outputs. Transactions whose semantic check fails, oversize blobs and blobs that do not parse are refused and reported as failed verification.',
    over=['inputs'],
    qtext='every transaction; every path of the check to acceptance, every input, output and key of the transaction',
    why='Tests build a few malformed transactions; the checks guard the money supply and must hold for every input and output position, kind and amount, including sums that overflow and keys that are not on the curve.',
    files=['src/CryptoNoteCore/Core.cpp', 'src/CryptoNoteCore/Blockchain.h', 'src/CryptoNoteCore/CryptoNoteFormatUtils.cpp', 'src/CryptoNoteCore/Currency.cpp'],
    mechanism=[('semantic check', 'core::check_tx_semantic'), ('output rules', 'Blockchain::check_tx_outputs, check_outs_valid, Currency::validateOutput'), ('sums', 'check_inputs_overflow, check_outs_overflow, Currency::getTransactionAllInputsAmount, get_outs_money_amount')],
    state=[('transaction under check', 'inputs and outputs', 'cn::Transaction')],
    observe=['tx_verification_context of an offered transaction'],
    technique='path-sensitive guard domination and per-element loop coverage over the CFG, variant-visitor overloads included',
    level_note='Decides that each comparison is made for each element on every accepting path; the interest formula behind the input amount is not verified.',
)
MIN = 20
EXPLAIN = 'All CFG paths of the semantic check and of the functions that sum or check inputs and outputs; one obligation per elementary check, per loop over inputs, outputs or keys and per refusing exit of the entry point.'

STOP = ('cn::getObjectHash', 'crypto::check_key', 'cn::check_key', 'logging::*', 'cn::Currency::getTransactionAllInputsAmount', 'cn::Currency::getTransactionInputAmount', 'cn::get_outs_money_amount', 'cn::Currency::formatAmount', 'cn::mul128', 'mul128', 'div128_32')
LEAF = {'cn::TransactionPrefix::inputs', 'cn::TransactionPrefix::outputs', 'crypto::check_key', 'cn::MultisignatureOutput::term'}


def keys(f):
    return bool(LEAF & f.names) or f.cls == 'cn::core' and f.name.startswith('check')


def zero(t):
    return const_of(t) == 0


def nonzero(a, p, pred):
    return ne(a, p, pred, zero) or lt(a, p, zero, pred) or leq(a, p, lambda t: const_of(t) == 1, pred) or p == 1 and a[0] not in ('cmp', 'in', 'not') and pred(stripc(a))


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'the semantic check: every accepting path made each check, for every input')
    c.rule('R2', 'every output of an accepted transaction obeys the rules of its kind')
    c.rule('R3', 'the overflow checks cover every amount')
    c.rule('R4', 'a deposit output is accepted only with a valid term and amount')
    c.rule('R5', 'the compared amounts are sums over all inputs and all outputs')
    c.rule('R6', 'the entry point reports a transaction that fails the check')
    cts = F.q('cn::core::check_tx_semantic')
    inp, outp = (lambda t: isf(t, 'inputs')), (lambda t: isf(t, 'outputs'))
    MS, KI, KO, MO = 'MultisignatureInput', 'KeyInput', 'KeyOutput', 'MultisignatureOutput'
    for fn in cts:
        one = lambda t, n, f: isc(t, n) or stripc(t)[0] in ('phi', 'var', 'out') and (m.call(t, n) or m.fld(t, f))
        INS = lambda t: one(t, 'getTransactionAllInputsAmount', 'inputs')
        OUTS = lambda t: one(t, 'get_outs_money_amount', 'outputs')
        g = {
            'inputs': lambda a, p, ev: p == 0 and stripc(a)[0] == 'empty' and inp(a[1]) or nonzero(a, p, lambda t: t[0] in ('size', 'call') and m.fld(t, 'inputs') and (t[0] == 'size' or last(t[1]) == 'size')),
            'balance': lambda a, p, ev: leq(a, p, OUTS, INS),
        }
        c.gates('R1', fn, keys, {'inputs': 'the transaction has inputs', 'balance': 'the inputs are worth at least the outputs'}, br=g, exits=lambda k, r: set(g) if succ(k, r) else None, no_inline=STOP, max_depth=5)

        def per(what, gate, cont, stop=STOP):
            c.each('R1', what, fn, keys, cont, done_br=lambda a, p, ev: gate(a, p), exits=succ, no_inline=stop, max_depth=5, some=True)
        V2 = lambda t: const_of(t) == 2 or m.glob(t, 'TRANSACTION_VERSION_2')
        per('every input is a key or multisignature input', lambda a, p: is_type(a, p, KI, MS), inp)
        per('a multisignature input needs transaction version 2', lambda a, p: is_type(a, p, KI) or not_type(a, p, MS) or leq(a, p, V2, lambda t: isf(t, 'version')), inp)
        ins = lambda a, p, f: a[0] == 'fld' and last(a[2]) == 'second' and m.call(a, 'insert', 'emplace') and m.fld(a, *f) and p == 1 or p == 0 and stripc(a)[0] in ('in', 'count') and m.fld(a, *f)
        per('no key image is used twice', lambda a, p: not_type(a, p, KI) or is_type(a, p, MS) or ins(stripc(a), p, ('keyImage',)), inp)
        per('no multisignature output is used twice', lambda a, p: not_type(a, p, MS) or is_type(a, p, KI) or ins(stripc(a), p, ('outputIndex',)) and m.fld(a, 'amount'), inp)
        vis = lambda a, p: truth_of(a, p, 'apply_visitor') == 1 and m.has(a, lambda x: x[0] == 'fld' and last(x[2]) == 'target')
        per('every output is put to the output rules', lambda a, p: vis(a, p) or (is_type(a, p, KO, MO)), outp, STOP + ('boost::apply_visitor',))
    # output rules: the visitor's overloads (or the function that tests the kinds itself)
    key = lambda a, p: truth_of(a, p, 'check_key') == 1
    V2 = lambda t: const_of(t) == 2 or m.glob(t, 'TRANSACTION_VERSION_2')
    ver = lambda a, p: leq(a, p, V2, lambda t: m.fld(t, 'version', 'm_tx')) or lt(a, p, lambda t: const_of(t) == 1, lambda t: m.fld(t, 'version'))
    sigs = lambda a, p: leq(a, p, lambda t: noff(t) and isf(t, 'requiredSignatureCount'), lambda t: noff(t) and m.fld(t, 'keys'))
    amt = lambda a, p: nonzero(a, p, lambda t: isf(t, 'amount', 'm_amount') or t[0] == 'param' and 'long' in str(t[2]))
    ops = [f for f in F.fns.values() if f.name == 'operator()' and f.cls.startswith('cn::') and 'crypto::check_key' in names_in(F, f) and any(v[2] == 'p' for v in f.vars) and f.rel().startswith('src/CryptoNoteCore/Blockchain')]
    nk = nm = 0
    for f in ops:
        ty = ' '.join(f.types[v[1]] for v in f.vars if v[2] == 'p')
        if 'KeyOutput' in ty:
            nk += 1
            c.gates('R2', f, keys, {'amount': 'a key output has an amount', 'key': 'a key output has a valid key'}, br={'amount': lambda a, p, ev: amt(a, p), 'key': lambda a, p, ev: key(a, p)}, exits=lambda k, r: {'amount', 'key'} if succ(k, r) else None, no_inline=STOP)
        elif 'MultisignatureOutput' in ty:
            nm += 1
            c.gates('R2', f, keys, {'version': 'a multisignature output needs transaction version 2', 'sigs': 'a multisignature output requires no more signatures than it has keys', 'deposit': 'a multisignature output obeys the deposit rules'},
                    br={'version': lambda a, p, ev: ver(a, p), 'sigs': lambda a, p, ev: sigs(a, p), 'deposit': lambda a, p, ev: truth_of(a, p, 'validateOutput') == 1}, exits=lambda k, r: {'version', 'sigs', 'deposit'} if succ(k, r) else None, no_inline=STOP + ('cn::Currency::validateOutput',))
            c.each('R2', 'every key of a multisignature output is valid', f, keys, lambda t: isf(t, 'keys'), done_br=lambda a, p, ev: key(a, p), exits=succ, no_inline=STOP)
    if not (nk and nm):
        c.broken('output rules not found (%d key, %d multisignature)' % (nk, nm))
    for f in F.q('cn::check_outs_valid'):
        d = lambda g, *T: (lambda a, p, ev: g(a, p) or not_type(a, p, *T) or any(is_type(a, p, x) for x in (KO, MO) if x not in T))
        E1 = lambda what, done: c.each('R2', what + ' (coinbase)', f, keys, outp, done_br=done, exits=succ, no_inline=STOP)
        E1('every output has a known kind', lambda a, p, ev: is_type(a, p, KO, MO))
        E1('a key output has an amount', d(amt, KO))
        E1('a key output has a valid key', d(key, KO))
        E1('a multisignature output needs transaction version 2', d(ver, MO))
        E1('a multisignature output requires no more signatures than it has keys', d(sigs, MO))
        c.each('R2', 'every key of a multisignature output is valid (coinbase)', f, keys, lambda t: isf(t, 'keys'), done_br=lambda a, p, ev: key(a, p), exits=lambda k, r: False, no_inline=STOP)
    # overflow: money > amount + money refuses
    for nm_, cont, f in [('cn::check_inputs_overflow', inp, f) for f in F.q('cn::check_inputs_overflow')] + [('cn::check_outs_overflow', outp, f) for f in F.q('cn::check_outs_overflow')]:
        acc = lambda t: stripc(t)[0] == 'phi' or const_of(t) == 0
        sm = lambda t: stripc(t)[0] == 'op' and stripc(t)[1] == '+'
        lim = lambda t: t[0] == 'op' and t[1] == '-' and (m.call(t, 'max') or m.has(t, lambda x: x[0] == 'int' and x[1] in (2**64 - 1, -1)))
        ok = lambda a, p: leq(a, p, lambda t: not sm(t), sm) or leq(a, p, lambda t: True, lambda t: lim(stripc(t)))
        c.each('R3', '%s: each amount is tested before it is added' % last(nm_), f, keys, cont, done_br=lambda a, p, ev: ok(a, p), exits=succ, no_inline=STOP)
        c.each('R3', '%s: each amount is added' % last(nm_), f, keys, cont, done=lambda ev: ev.kind == 'write' and ev.lhs[0] == 'var' and (ev.op == '+=' or ev.op == '=' and sm(ev.rhs)) and m.fld(ev.rhs, 'amount') or ev.kind == 'write' and ev.lhs[0] == 'var' and ev.op in ('+=', '='), exits=succ, no_inline=STOP)
    for f in F.q('cn::check_money_overflow'):
        c.gates('R3', f, keys, {'in': 'the inputs are tested', 'out': 'the outputs are tested'}, br={'in': lambda a, p, ev: truth_of(a, p, 'check_inputs_overflow') == 1, 'out': lambda a, p, ev: truth_of(a, p, 'check_outs_overflow') == 1},
                exits=lambda k, r: {'in', 'out'} if succ(k, r) else None, no_inline=STOP + ('cn::check_inputs_overflow', 'cn::check_outs_overflow'))
    for fn in cts:
        c.gates('R3', fn, keys, {'in': 'the inputs were tested for overflow', 'out': 'the outputs were tested for overflow'}, br={'in': lambda a, p, ev: truth_of(a, p, 'check_inputs_overflow') == 1, 'out': lambda a, p, ev: truth_of(a, p, 'check_outs_overflow') == 1},
                exits=lambda k, r: {'in', 'out'} if succ(k, r) else None, no_inline=STOP + ('cn::check_inputs_overflow', 'cn::check_outs_overflow'), max_depth=5)
    # deposits
    for f in F.q('cn::Currency::validateOutput'):
        T = lambda t: noff(t) and isf(t, 'term')
        late = lambda a, p: lt(a, p, lambda t: isf(t, 'm_depositHeightV4') and noff(t), lambda t: noff(t) and stripc(t)[0] == 'param')
        early = lambda a, p: leq(a, p, lambda t: noff(t) and stripc(t)[0] == 'param', lambda t: isf(t, 'm_depositHeightV4') and noff(t))
        none = lambda a, p: eq(a, p, T, zero)
        lower = lambda n: lambda a, p, ev: none(a, p) or (early if n.endswith('V3') else late)(a, p) or leq(a, p, lambda t: noff(t) and isf(t, n), T)
        upper = lambda n: lambda a, p, ev: none(a, p) or (early if n.endswith('V3') else late)(a, p) or leq(a, p, T, lambda t: noff(t) and isf(t, n))
        g = {'min1': lower('m_depositMinTerm'), 'max1': upper('m_depositMaxTermV1'), 'min3': lower('m_depositMinTermV3'), 'max3': upper('m_depositMaxTermV3'),
             'mult3': lambda a, p, ev: none(a, p) or early(a, p) or eq(a, p, lambda t: stripc(t)[0] == 'op' and stripc(t)[1] == '%' and T(stripc(t)[2]) and isf(stripc(t)[3], 'm_depositMinTermV3'), zero),
             'amount': lambda a, p, ev: none(a, p) or leq(a, p, lambda t: noff(t) and isf(t, 'm_depositMinAmount'), lambda t: noff(t) and stripc(t)[0] == 'param')}
        c.gates('R4', f, {'cn::MultisignatureOutput::term'}, {'min1': 'an early deposit has the minimum term', 'max1': 'an early deposit has at most the maximum term', 'min3': 'a deposit has the minimum term', 'max3': 'a deposit has at most the maximum term', 'mult3': 'the term of a deposit is a multiple of the minimum', 'amount': 'a deposit has the minimum amount'}, br=g,
                exits=lambda k, r: set(g) if succ(k, r) else None, no_inline=STOP)
    # sums
    addto = lambda pred: lambda ev: ev.kind == 'write' and ev.lhs[0] == 'var' and ev.op in ('+=', '=') and pred(ev.rhs) and (ev.op == '+=' or stripc(ev.rhs)[0] == 'op' and stripc(ev.rhs)[1] == '+')
    anyret = lambda k, r: k == 'ret'
    for f in F.q('cn::get_outs_money_amount'):
        c.each('R5', 'the amount of every output is added up', f, keys, outp, done=addto(lambda t: m.fld(t, 'amount')), exits=anyret)
    for f in F.q('cn::Currency::getTransactionAllInputsAmount'):
        c.each('R5', 'the amount of every input is added up', f, keys, inp, done=addto(lambda t: m.call(t, 'getTransactionInputAmount', 'apply_visitor') or m.fld(t, 'amount')), exits=anyret, no_inline=STOP + ('boost::apply_visitor',))
    # entry point
    for f in F.q('cn::core::handle_incoming_tx'):
        from .c02 import flagged
        SZ = ('cn::core::handleIncomingTransaction', 'cn::core::parse_tx_from_blob')
        c.gates('R6', f, {'cn::Currency::maxTxSize'}, {'size': 'an oversize blob is refused'}, br={'size': lambda a, p, ev: leq(a, p, lambda t: noff(t) and (t[0] == 'size' or isc(t, 'size')), lambda t: isc(t, 'maxTxSize')), 'parse': lambda a, p, ev: truth_of(a, p, 'parse_tx_from_blob') == 1},
                targets=[('handled', lambda ev: ev.kind == 'call' and ev.name == 'handleIncomingTransaction', {'size'})], no_inline=SZ)
        c.gates('R6', f, {'cn::Currency::maxTxSize'}, {'parse': 'a blob that does not parse is refused'}, br={'parse': lambda a, p, ev: truth_of(a, p, 'parse_tx_from_blob', 'parseAndValidateTransactionFromBinaryArray') == 1},
                targets=[('handled', lambda ev: ev.kind == 'call' and ev.name == 'handleIncomingTransaction', {'parse'})], no_inline=SZ)
        flagged(c, 'R6', f, {'cn::Currency::maxTxSize'}, SZ, None, 'm_verification_failed', ('handleIncomingTransaction',))
    for f in F.q('cn::core::handleIncomingTransaction'):
        from .c02 import flagged
        flagged(c, 'R6', f, {'cn::core::check_tx_semantic'}, STOP + ('cn::core::add_new_tx', 'cn::core::check_tx_semantic'), lambda a, p, ev: truth_of(a, p, 'add_new_tx') == 0, 'm_verification_failed', ('add_new_tx',))
        c.gates('R6', f, {'cn::core::check_tx_semantic', 'cn::tx_memory_pool::add_tx'}, {'sem': 'the pool is offered only transactions that passed the semantic check'}, br={'sem': lambda a, p, ev: truth_of(a, p, 'check_tx_semantic') == 1},
                targets=[('offer', lambda ev: ev.kind == 'call' and ev.qn == 'cn::tx_memory_pool::add_tx', {'sem'})], no_inline=STOP + ('cn::core::check_tx_semantic', 'cn::tx_memory_pool::add_tx'))
    pool = [f for f in F.q('cn::tx_memory_pool::add_tx')]
    pid = {f.id for f in pool}
    okc = {f.id for f in F.q('cn::core::add_new_tx')} | pid | {f.id for f in F.cls('cn::Blockchain') if f.name in ('saveTransactions', 'popBlock', 'popTransactions')}
    inside = callees(F, F.q('cn::core::handleIncomingTransaction')[0], 60)
    for f in F.fns.values():
        if pid & set(f.calls) and f.rel().startswith('src/'):
            c.check(f.id in okc or f.id in inside or f.cls == 'cn::Blockchain', 'R6', 'transactions are offered to the pool by the entry point or by the chain only', '%s %s' % (f.loc(), f.qn), construct='offer in ' + f.qn)


def names_in(F, f):
    s = set(f.names)
    for g in F.fns.values():
        if g.parent == f.id:
            s |= g.names
    return s
