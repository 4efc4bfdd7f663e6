"""The wallet's synchroniser: blocks and pool of the node reach all accounts from where each stands."""
from .common import *
from .c17 import Hits
from .c22 import lin, is_lin, ec, told

BS = 'cn::BlockchainSynchronizer::'
SS = 'cn::SynchronizationState::'
IC = 'cn::IBlockchainConsumer::'

META = dict(
    title='Every wallet consumer gets exactly the blocks it lacks, after a due detach',
    statement='A response of the node is compared block by block with what each consumer knows; at the first difference the consumer and its state are detached there, and the blocks from there on (or after its last block) are handed to it; they count as known only when the consumer took them, and a gap or a failure ends the round with an error. The pool is handed to every consumer only if the last block is actual, an unconfirmed transaction is taken by all consumers or by none, and a request to stop is never overwritten. Every round and every task ends with a notification or a result.',
    over=['inputs', 'schedules', 'histories'],
    qtext='every answer of the node, every reorganisation and every moment of a stop',
    why='A missed detach or a block handed out twice leaves a wallet with money that does not exist; tests drive a few reorganisations of one consumer.',
    files=['src/Transfers/BlockchainSynchronizer.cpp', 'src/Transfers/BlockchainSynchronizer.h', 'src/Transfers/SynchronizationState.cpp'],
    mechanism=[('comparison', 'SynchronizationState::checkInterval'), ('distribution', 'BlockchainSynchronizer::updateConsumers, processBlocks'), ('requests', 'startBlockchainSync, startPoolSync, getCommonHistory, getPoolUnionAndIntersection'), ('states and tasks', 'actualizeFutureState, setFutureStateIf, doAddUnconfirmedTransaction')],
    state=[('known blocks', 'hashes of the blocks that a consumer took', 'SynchronizationState::m_blockchain'), ('states', 'what runs and what runs next', 'BlockchainSynchronizer::m_currentState, m_futureState')],
    observe=['calls of consumers', 'notifications of the synchroniser'],
    technique='gate, follow-up and per-element analysis over the CFG with linear index terms',
    level_note='Decides the steps and the offsets on every path; the node, the thread library and the arithmetic range of heights are trusted. The choice of the common history is decided only as to the shortest consumer and the genesis block.',
)
MIN = 40
EXPLAIN = 'Every CFG path of the synchroniser and of the state of a consumer; obligations are one per step per consumer, per offset, per exit and per notification.'


def HERE(f):
    return any(f.rel().endswith('Transfers/%s.%s' % (a, b)) for a in ('BlockchainSynchronizer', 'SynchronizationState') for b in ('cpp', 'h'))


class Seq(Rule):
    """a small automaton; the steps may add what is wrong to self.bad"""

    def __init__(self, E, keys, no_inline=(), on=None, br=None, init=0, exc='explicit'):
        self.E, self.keys, self.no_inline, self.on, self.br, self.init, self.exc = E, keys, no_inline, on, br, init, exc
        self.reset()

    def reset(self):
        self.bad = []

    def branch(self, st0, a, p, ev):
        return self.br(st0, a, p) if self.br else st0

    def event(self, st0, ev, st):
        if not self.on:
            return st0
        s2, bad = self.on(st0, ev)
        if bad and self.final:
            self.bad.append(ev)
        return s2


def leaves(atoms):
    """the comparisons of a conjunction"""
    out = []
    atoms = list(atoms)
    while atoms:
        a, p = atoms.pop()
        if a[0] == 'logic' and (a[1] == '&&' and p == 1 or a[1] == '||' and p == 0):
            atoms += [(y, p) for y in a[2:]]
        elif a[0] == 'not':
            atoms.append((a[1], 1 - p))
        elif a[0] == 'cmp' and p == 0:
            atoms.append((('cmp', '!=' if a[1] == '==' else '==', a[2], a[3]) if a[1] in ('==', '!=') else ('cmp', {'<': '<=', '<=': '<', '>': '>=', '>=': '>'}[a[1]], a[3], a[2]), 1))
        else:
            out.append((a, p))
    return out


def decided(t):
    """the constant that a logical value is"""
    if t[0] == 'logic':
        vs = [decided(x) for x in t[2:]]
        top = TRUE if t[1] == '||' else FALSE
        return top if top in vs else t if any(v not in (TRUE, FALSE) for v in vs) else vs[0]
    return t


class Ends(Rule):
    """decided branches and value of every return"""
    init = frozenset()

    def __init__(self, E, keys=None):
        self.E, self.keys = E, keys
        self.reset()

    def reset(self):
        self.out = []

    def branch(self, st0, a, p, e):
        return st0 | {(a, p)}

    def leave(self, st0, kind, ret, e, st):
        if self.final and kind == 'ret':
            self.out.append((st0, decided(ret)))


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'each consumer is detached where it differs and is given the rest; it knows a block only after it took it')
    c.rule('R2', 'the comparison starts at the first common height, ends at the first difference, and never reads outside of the blocks')
    c.rule('R3', 'the known blocks change only by a detach at the height and by blocks that were taken')
    c.rule('R4', 'the history that is sent ends with the first block and lies within the known blocks')
    c.rule('R5', 'all blocks of a response are passed on, complete and in order, and every round is reported')
    c.rule('R6', 'the pool is passed on only while the last block is actual, and every round is reported')
    c.rule('R7', 'an unconfirmed transaction is taken by all consumers or by none, and every task gets its result')
    c.rule('R8', 'a stop is never overwritten, and consumers change only while it is stopped')
    names = ('updateConsumers', 'processBlocks', 'startBlockchainSync', 'startPoolSync', 'processPoolTxs', 'getPoolSymmetricDifferenceSync', 'getCommonHistory', 'getPoolUnionAndIntersection', 'doAddUnconfirmedTransaction', 'doRemoveUnconfirmedTransaction', 'actualizeFutureState', 'setFutureStateIf', 'setFutureState',
             'addUnconfirmedTransaction', 'removeUnconfirmedTransaction', 'addConsumer', 'removeConsumer', 'start', 'stop', 'workingProcedure')
    f = {n: F.q1(BS + n) for n in names}
    s = {n: F.q1(SS + n) for n in ('checkInterval', 'detach', 'addBlocks', 'getHeight', 'getShortHistory')}
    K = HERE
    ALL = tuple(BS + n for n in ('updateConsumers', 'processBlocks', 'startBlockchainSync', 'startPoolSync', 'processPoolTxs', 'getPoolSymmetricDifferenceSync', 'getCommonHistory', 'getPoolUnionAndIntersection', 'doAddUnconfirmedTransaction', 'doRemoveUnconfirmedTransaction', 'actualizeFutureState', 'setFutureStateIf', 'setFutureState', 'checkIfShouldStop', 'checkIfStopped')) + tuple(SS + n for n in ('checkInterval', 'detach', 'addBlocks', 'getHeight', 'getShortHistory'))
    but = lambda *ns: tuple(x for x in ALL if last(x) not in ns)
    at = lambda ev: '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn)
    subs = lambda t: isf(t, 'm_consumers')
    chain = lambda t: isf(t, 'm_blockchain')
    start = lambda t: isf(t, 'startHeight')
    count = lambda cont: (lambda t: (isc(t, 'size') and cont(t[2])) or t[0] == 'size' and cont(t[1]))
    rets = lambda name: (lambda k, r: k == 'ret' and name in str(r))
    notret = lambda name: (lambda k, r: k == 'ret' and name not in str(r))
    # R1
    g = f['updateConsumers']
    new, add, odet, sdet = calls(IC + 'onNewBlocks', 'onNewBlocks'), calls(SS + 'addBlocks'), calls(IC + 'onBlockchainDetach', 'onBlockchainDetach'), calls(SS + 'detach')
    fresh = lambda a, p, ev: loop_more(E, a, p, subs) == 1
    took = lambda v: (lambda a, p, ev: truth_of(a, p, 'onNewBlocks') == v or flag(a, p, lambda t: m.call(t, 'onNewBlocks') and t[0] in ('phi', 'call')) == v)
    fl = lambda name, v: (lambda a, p, ev: flag(a, p, lambda t: isf(t, name)) == v)
    c.each('R1', 'every consumer gets the blocks it lacks', g, K, subs, done=add, done_br=fl('hasNewBlocks', 0), exits=notret('errorOccurred'), no_inline=ALL)
    c.gates('R1', g, K, {'near': 'no block is missing before the first one', 'cmp': 'its blocks were compared', 'od': 'the consumer is detached, if required', 'sd': 'its state is detached, if required', 'took': 'the consumer took the blocks', 'new': 'it lacks blocks', 'req': 'a detach is required'},
            br={'near': lambda a, p, ev: leq(a, p, start, lambda t: isc(t, 'getHeight')), 'od': fl('detachRequired', 0), 'sd': fl('detachRequired', 0), 'took': took(1), 'new': fl('hasNewBlocks', 1), 'req': fl('detachRequired', 1)}, ev={'cmp': calls(SS + 'checkInterval'), 'od': odet, 'sd': sdet}, fresh=fresh,
            targets=[('blocks compared', calls(SS + 'checkInterval'), {'near'}), ('blocks handed out', new, {'cmp', 'od', 'sd', 'new'}), ('blocks known', add, {'took'}), ('consumer detached', odet, {'req'}), ('state detached', sdet, {'req'})], no_inline=ALL, min_sites=4)
    follow(c, 'R1', 'the state is detached with its consumer', g, K, odet, done=sdet, no_inline=ALL, exits=lambda k, r: k == 'ret')
    follow(c, 'R1', 'blocks that were taken are known', g, K, None, done=add, trig_br=took(1), no_inline=ALL)
    follow(c, 'R1', 'blocks that were not taken end the round with an error', g, K, None, trig_br=took(0), exits=notret('errorOccurred'), no_inline=ALL)
    follow(c, 'R1', 'new blocks are reported', g, K, add, exits=rets('nothingChanged'), again=True, no_inline=ALL)
    hh = Hits(E, K, lambda ev: new(ev) or add(ev) or odet(ev) or sdet(ev), no_inline=ALL)
    c.run(hh, g)
    nb, dh = lambda t: isf(t, 'newBlockHeight'), lambda t: isf(t, 'detachHeight')
    data = lambda t: isc(t, 'data', 'begin') or t[0] == 'addr'
    for ev in hh.hits:
        if odet(ev) or sdet(ev):
            c.check(dh(ev.args[0]), 'R1', 'the detach is at the first difference', at(ev), construct='height of %s in updateConsumers' % ev.name)
        else:
            first = strip(ev.args[0])
            ok = is_lin(first, 0, data, nb, (start, -1)) or first[0] in ('idx', 'call') and ev.args[0][0] == 'addr' and any(is_lin(x, 0, nb, (start, -1)) for x in subterms(first)) or not any(nb(x) for x in subterms(first)) and first[0] in ('obj', 'var', 'phi')
            c.check(ok, 'R1', 'the first block is the one after the last known', at(ev), construct='first block of %s in updateConsumers' % ev.name)
            c.check(nb(ev.args[1]), 'R1', 'its height is that of the first new block', at(ev), construct='height of %s in updateConsumers' % ev.name)
            n = lin(ev.args[2])
            ok = is_lin(ev.args[2], 0, lambda t: isc(t, 'size') or t[0] == 'size', (nb, -1), start) or not any(nb(x) or isc(x, 'size') or x[0] == 'size' for x in n if x is not None)
            c.check(ok, 'R1', 'all blocks up to the last one are given', at(ev), construct='number of %s in updateConsumers' % ev.name)
    # R2
    g = s['checkInterval']
    known = lambda t: strip(t)[0] == 'idx' and chain(strip(t)[1]) or isc(t, 'operator[]', 'at') and strip(t)[2] is not None and chain(strip(t)[2])
    got = lambda t: strip(t)[0] == 'idx' and isf(strip(t)[1], 'blocks') or isc(t, 'operator[]', 'at') and strip(t)[2] is not None and isf(strip(t)[2], 'blocks')
    diff = lambda a, p, ev: ne(a, p, known, got)
    flagd = lambda ev: writes('detachRequired')(ev) and ev.rhs == TRUE
    follow(c, 'R2', 'a difference requires a detach', g, K, None, done=flagd, trig_br=diff)
    follow(c, 'R2', 'the height of the difference is kept', g, K, None, done=lambda ev: writes('detachHeight')(ev) and stripc(strip(ev.rhs))[0] in ('phi', 'var'), trig_br=diff)
    cmpd = lambda ev: ev.kind == 'call' and ev.name in ('operator==', 'operator!=') and any(known(a) for a in list(ev.args) + ([ev.obj] if ev.obj is not None else []))
    lenof = count(lambda t: isf(t, 'blocks'))
    longer = lambda a, p, ev: lt(a, p, count(chain), lambda t: is_lin(t, 0, start, lenof))
    nolonger = lambda a, p, ev: leq(a, p, lambda t: is_lin(t, 0, start, lenof), count(chain))
    c.gates('R2', g, K, {'clean': 'no difference was found before', 'diff': 'a difference was found', 'longer': 'the response ends after the last known block', 'none': 'no block is new', 'h': 'new blocks are reported', 'nb': 'their height is reported', 'dh': 'the height of the difference is known'},
            br={'diff': diff, 'longer': longer, 'h': nolonger, 'nb': nolonger, 'dh': fl('detachRequired', 1)}, ev={'h': lambda ev: writes('hasNewBlocks')(ev) and ev.rhs == TRUE, 'nb': writes('newBlockHeight'), 'dh': writes('detachHeight')}, kills={'clean': flagd}, init=frozenset({'clean'}),
            targets=[('blocks compared', cmpd, {'clean'}), ('detach required', flagd, {'diff'}), ('first new block after the known ones', lambda ev: writes('newBlockHeight')(ev) and count(chain)(stripc(strip(ev.rhs))), {'longer'}), ('first new block at the difference', lambda ev: writes('newBlockHeight')(ev) and dh(ev.rhs), {'dh'})],
            exits=lambda k, r: {'h', 'nb'} if k == 'ret' else None, min_sites=4)
    hh = Hits(E, K, lambda ev: cmpd(ev) or writes('newBlockHeight')(ev) or writes('detachHeight')(ev) or ev.kind == 'decl' and ev.term is not None)
    c.run(hh, g)
    idx = lambda t: strip(t)[2] if strip(t)[0] == 'idx' else strip(t)[3][0]
    loops = set()
    for ev in hh.hits:
        if cmpd(ev):
            xs = [strip(a) for a in list(ev.args) + ([ev.obj] if ev.obj is not None else [])]
            a, b = [x for x in xs if known(x)], [x for x in xs if got(x)]
            if a and b:
                i = stripc(strip(idx(a[0])))
                c.check(is_lin(('op', '-', idx(a[0]), idx(b[0])), 0, start), 'R2', 'blocks of the same height are compared', at(ev), construct='indexes of checkInterval')
                if i[0] == 'phi':
                    loops.add(i[3])
        elif writes('newBlockHeight')(ev):
            c.check(dh(ev.rhs) or count(chain)(stripc(strip(ev.rhs))) or strip(ev.rhs)[0] in ('phi', 'var'), 'R2', 'the first new block is at the difference or after the known ones', at(ev), construct='newBlockHeight in checkInterval')
    for ev in hh.hits:
        if ev.kind == 'decl' and ev.var in loops:
            c.check(start(ev.term), 'R2', 'the comparison starts with the first block of the response', at(ev), construct='start of the comparison')
    bound = lambda t: isc(t, 'min') and any(count(chain)(stripc(strip(x))) for x in t[3]) or count(chain)(stripc(strip(t)))
    resp = lambda t: isc(t, 'min') and any(is_lin(x, 0, start, lenof) for x in t[3]) or is_lin(t, 0, start, lenof)
    ph = lambda t: stripc(strip(t))[0] == 'phi'
    c.gates('R2', g, K, {'k': 'the height lies within the known blocks', 'r': 'the height lies within the response'}, br={'k': lambda a, p, ev: lt(a, p, ph, bound), 'r': lambda a, p, ev: lt(a, p, ph, resp) or lt(a, p, lambda t: is_lin(t, 0, ph, (start, -1)), lenof)}, kills={x: lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and ev.op in ('++', '+=') for x in 'kr'},
            targets=[('blocks compared', cmpd, {'k', 'r'})], min_sites=1)
    follow(c, 'R2', 'all common heights are compared unless a difference is found', g, K, None, trig_br=lambda a, p, ev: eq(a, p, known, got), done_br=lambda a, p, ev: leq(a, p, bound, ph) or leq(a, p, resp, ph) or diff(a, p, ev), again=True)
    # R3
    g = s['detach']
    cut = lambda ev: ev.kind == 'call' and ev.name in ('resize', 'erase') and ev.obj is not None and chain(ev.obj)
    c.gates('R3', g, K, {'cut': 'the blocks from the height on are forgotten'}, ev={'cut': cut}, exits=lambda k, r: {'cut'} if k == 'ret' else None, min_sites=1)
    hh = Hits(E, K, cut)
    c.run(hh, g)
    for ev in hh.hits:
        if ev.name == 'resize':
            c.check(strip(ev.args[0])[0] == 'param', 'R3', 'the blocks below the height stay', at(ev), construct='new size in detach')
        else:
            c.check(is_lin(ev.args[0], 0, lambda t: isc(t, 'begin'), lambda t: t[0] == 'param') and (len(ev.args) < 2 or isc(ev.args[1], 'end')), 'R3', 'the blocks below the height stay', at(ev), construct='new size in detach')
    g = s['addBlocks']
    grow = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'push_back', 'emplace_back', 'assign') and ev.obj is not None and chain(ev.obj)
    hh = Hits(E, K, grow)
    c.run(hh, g)
    c.check(bool(hh.hits), 'R3', 'the blocks are appended', '%s in %s' % (g.loc(), g.qn), construct='append in addBlocks')
    p0, p2 = lambda t: t[0] == 'param' and t[1] == 0, lambda t: t[0] == 'param' and t[1] == 2
    for ev in hh.hits:
        if ev.name == 'insert':
            ok = isc(ev.args[0], 'end') and len(ev.args) == 3 and p0(strip(ev.args[1])) and is_lin(ev.args[2], 0, p0, p2)
            c.check(ok, 'R3', 'all blocks are appended', at(ev), construct='append in addBlocks')
    g = s['getHeight']
    vals = []

    class Val(Rule):
        init = 0

        def __init__(self):
            self.E, self.keys = E, K

        def leave(self, st0, kind, ret, ev, st):
            if self.final and kind == 'ret':
                vals.append((ret, ev))
    c.run(Val(), g)
    for r, ev in vals:
        c.check(count(chain)(stripc(strip(r))), 'R3', 'the height is the number of known blocks', '%s in %s' % (g.loc(ev.line), g.qn), construct='value of getHeight')
    users = {x for x in F.fns.values() if SS + 'm_blockchain' in x.names and not x.qn.startswith(SS)}
    c.check(not users, 'R3', 'no one else touches the known blocks', SS + 'm_blockchain', construct='users of m_blockchain: %s' % ', '.join(sorted(x.qn for x in users)))
    # R4
    g = s['getShortHistory']
    push = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and strip(ev.obj)[0] == 'obj'
    hist = lambda ev: push(ev) and any(known(x) for x in [ev.args[0]])
    i0 = lambda ev: hist(ev) and const_of(idx(ev.args[0])) == 0
    zero = lambda t: any(isc(x, 'min', 'size') or x[0] == 'size' for x in lin(t) if x is not None)
    none = lambda a, p, ev: flag(a, p, zero) == 0 or eq(a, p, zero, lambda t: const_of(t) == 0) or is_empty(a, p, chain)
    inside = lambda a, p, ev: lt(a, p, ph, lambda t: any(count(chain)(stripc(x)) for x in subterms(t)) and lin(t).get(None, 0) <= 0) or leq(a, p, ph, lambda t: any(count(chain)(stripc(x)) for x in subterms(t)) and lin(t).get(None, 0) < 0)
    c.gates('R4', g, K, {'gen': 'the first block is sent, or none is known', 'in': 'it lies within the known blocks', 'some': 'a block is known'}, br={'gen': none, 'in': inside, 'some': lambda a, p, ev: flag(a, p, zero) == 1 or lt(a, p, lambda t: True, zero) or not none(a, p, ev) and flag(a, p, zero) == 1},
            ev={'gen': i0}, kills={'in': lambda ev: ev.kind == 'write' and ev.op in ('++', '+=', '*=') and strip(ev.lhs)[0] == 'var'}, targets=[('block sent', lambda ev: hist(ev) and not i0(ev), {'in'}), ('first block sent', i0, {'some'})], exits=lambda k, r: {'gen'} if k == 'ret' else None, min_sites=2)
    hh = Hits(E, K, lambda ev: hist(ev) or ev.kind == 'decl' and ev.term is not None)
    c.run(hh, g)
    back = {x[3] for ev in hh.hits if hist(ev) for x, n in lin(idx(ev.args[0])).items() if x is not None and x[0] == 'phi' and n == -1}
    for ev in hh.hits:
        if ev.kind == 'decl' and ev.var in back and const_of(ev.term) is not None:
            c.check(const_of(ev.term) >= 1, 'R4', 'the first block sent is the last known one', at(ev), construct='start of getShortHistory')
    # R5
    g = f['startBlockchainSync']
    EX = dict(no_inline=ALL, exc='try')
    proc = calls(BS + 'processBlocks')
    asked = lambda t: isc(t, 'get')
    noerr, err = (lambda a, p, ev: ec(a, p) == 0), (lambda a, p, ev: ec(a, p) == 1)
    done = told('synchronizationCompleted')
    c.gates('R5', g, K, {'ok': 'the node answered without error', 'asked': 'the node was asked'}, br={'ok': noerr}, ev={'asked': lambda ev: ev.kind == 'call' and ev.name == 'queryBlocks'}, kills={'ok': lambda ev: ev.kind == 'call' and ev.name == 'queryBlocks'}, targets=[('response processed', proc, {'ok', 'asked'})], min_sites=1, no_inline=ALL)
    follow(c, 'R5', 'an error of the node is reported', g, K, None, done=done, trig_br=err, no_inline=ALL)
    follow(c, 'R5', 'an exception is reported', g, K, lambda ev: ev.kind == 'catch', done=done, **EX)
    c.gates('R5', g, K, {'end': 'the response is processed, the error reported, or nothing is asked'}, ev={'end': lambda ev: proc(ev) or done(ev)}, br={'end': lambda a, p, ev: is_empty(a, p, lambda t: isf(t, 'knownBlocks'))}, exits=lambda k, r: {'end'} if k == 'ret' else None, min_sites=1, **EX)
    g = f['processBlocks']
    resp_ = lambda t: isf(t, 'newBlocks')
    upd = calls(BS + 'updateConsumers')
    stopb = lambda v: (lambda a, p, ev: truth_of(a, p, 'checkIfShouldStop') == v or is_enum(a, p, lambda t: isf(t, 'm_futureState'), 'stopped') and v == 1)
    pushed = lambda pred: (lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and pred(strip(ev.obj)))
    local = lambda ty: (lambda t: t[0] == 'obj' and ty in str(t[2]))
    blk, hsh, txs = pushed(local('CompleteBlock')), pushed(lambda t: isf(t, 'blocks')), pushed(lambda t: isf(t, 'transactions'))
    infos = lambda t: isf(t, 'txsShortInfo')
    c.each('R5', 'every block of the response is passed on', g, K, resp_, done=blk, done_br=stopb(1), exits=lambda k, r: False, **EX)
    c.each('R5', 'the hash of every block is passed on', g, K, resp_, done=hsh, done_br=stopb(1), exits=lambda k, r: False, **EX)
    c.each('R5', 'every transaction of the block is passed on', g, K, infos, done=txs, exits=lambda k, r: False, no_inline=ALL)
    base = lambda ev: txs(ev) and any(isf(x, 'baseTransaction') for a in ev.args for x in subterms(a))
    nob = fl('hasBlock', 0)
    hashof = lambda t: isf(t, 'blockHash')
    begin = lambda a, p, ev: loop_more(E, a, p, resp_) == 1
    c.gates('R5', g, K, {'hash': 'it has its hash', 'block': 'it has its block', 'base': 'its first transaction is that of the reward', 'txs': 'it has all transactions', 'bh': 'its hash was passed on'}, br={'block': nob, 'base': nob, 'txs': lambda a, p, ev: nob(a, p, ev) or loop_more(E, a, p, infos) == 0},
            ev={'hash': lambda ev: writes('blockHash')(ev) and hashof(ev.rhs), 'block': lambda ev: writes('block')(ev) and isf(ev.rhs, 'block'), 'base': base, 'bh': hsh}, fresh=begin,
            targets=[('block passed on', blk, {'hash', 'block', 'base', 'txs', 'bh'}), ('transaction passed on', lambda ev: txs(ev) and not base(ev), {'base'})], min_sites=1, no_inline=ALL)
    q = Seq(E, K, ALL, on=lambda st0, ev: (1, False) if ev.kind == 'catch' else (st0, st0 and upd(ev)), exc='try')
    c.run(q, g)
    c.check(not q.bad, 'R5', 'a response that is incomplete is not passed on', at(q.bad[0]) if q.bad else g.qn, construct='consumers updated after an exception')
    hh = Hits(E, K, lambda ev: hsh(ev) or upd(ev) or writes('startHeight')(ev) or writes('lastBlockId')(ev), no_inline=ALL)
    c.run(hh, g)
    for ev in hh.hits:
        if hsh(ev):
            c.check(hashof(ev.args[0]), 'R5', 'it is the hash of the block', at(ev), construct='hash in processBlocks')
        elif writes('startHeight')(ev):
            c.check(start(ev.rhs), 'R5', 'the height is that of the response', at(ev), construct='startHeight in processBlocks')
        elif writes('lastBlockId')(ev):
            c.check(hashof(ev.rhs) and any(isc(x, 'back') or isc(x, 'rbegin') for x in subterms(ev.rhs)) or strip(ev.rhs)[0] in ('var', 'phi', 'obj'), 'R5', 'the last block is that of the response', at(ev), construct='lastBlockId in processBlocks')
    c.check(any(writes('lastBlockId')(ev) for ev in hh.hits), 'R5', 'the last block is kept', '%s in %s' % (g.loc(), g.qn), construct='lastBlockId kept in processBlocks')
    res = lambda t: isc(t, 'updateConsumers') or strip(t)[0] in ('phi', 'var') and 'UpdateConsumersResult' in str(t)
    added, same, failed = [(lambda a, p, ev, n=n: is_enum(a, p, res, n)) for n in ('addedNewBlocks', 'nothingChanged', 'errorOccurred')]
    again = calls(BS + 'setFutureState', arg=lambda t: enumv(t, 'blockchainSync'))
    known_ = lambda a, p, ev: eq(a, p, lambda t: isc(t, 'getLastKnownBlockHeight', 'getKnownBlockCount'), lambda t: isc(t, 'getLastLocalBlockHeight', 'getLocalBlockCount'))
    lockd = lambda mu: (lambda ev: ev.kind == 'decl' and any(x in str(ev.type) for x in ('unique_lock', 'lock_guard')) and any(isf(x, mu) for a in (ev.args or ()) for x in subterms(a)))
    unl = lambda ev: ev.kind == 'call' and ev.name == 'unlock'
    c.gates('R5', g, K, {'go': 'it is not to stop', 'lock': 'the consumers are locked', 'ok': 'there was no error'}, br={'go': stopb(0), 'ok': lambda a, p, ev: added(a, p, ev) or same(a, p, ev)}, ev={'lock': lockd('m_consumersMutex')}, kills={'lock': unl, 'ok': upd}, targets=[('consumers updated', upd, {'go', 'lock'}), ('next round', again, {'ok'})], min_sites=2, no_inline=ALL)
    follow(c, 'R5', 'new blocks start another round', g, K, None, done=again, trig_br=added, no_inline=ALL)
    follow(c, 'R5', 'the next round follows unless the node has no more blocks', g, K, None, done=again, done_br=known_, trig_br=same, no_inline=ALL)
    follow(c, 'R5', 'an error is reported unless it is to stop', g, K, None, done=done, done_br=lambda a, p, ev: truth_of(a, p, 'setFutureStateIf') == 0, trig_br=failed, no_inline=ALL)
    follow(c, 'R5', 'an exception is reported', g, K, lambda ev: ev.kind == 'catch', done=done, exits=lambda k, r: k == 'ret', **EX)
    follow(c, 'R5', 'a stop is reported', g, K, None, done=done, done_br=stopb(0), trig_br=stopb(1), again=True, exits=lambda k, r: k == 'ret', no_inline=ALL)
    g = f['getCommonHistory']
    low = lambda a, p, ev: lt(a, p, lambda t: isc(t, 'getHeight'), lambda t: isc(t, 'getHeight') and any(x[0] == 'phi' and 'short' in str(x) for x in subterms(t)))
    pick = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'var' and 'iterator' in str(strip(ev.lhs)[2]) and ev.op == '='
    def lower(st0, a, p):
        out = []
        h = lambda t: isc(t, 'getHeight') and not out.append(t[2])
        if lt(a, p, lambda t: isc(t, 'getHeight'), lambda t: True):
            lt(a, p, h, lambda t: True)
            return out[0] if out else None
        return st0
    q = Seq(E, K, ALL, br=lower, on=lambda st0, ev: (None, st0 is None or not any(x == strip(ev.rhs) for x in subterms(st0))) if pick(ev) else (st0, False), init=None)
    c.run(q, g)
    c.check(not q.bad, 'R5', 'the consumer that knows fewer blocks is taken', at(q.bad[0]) if q.bad else g.qn, construct='choice in getCommonHistory')
    c.gates('R5', g, K, {'low': 'it knows fewer blocks'}, br={'low': lambda a, p, ev: lt(a, p, lambda t: isc(t, 'getHeight'), lambda t: isc(t, 'getHeight'))}, targets=[('shortest consumer', pick, {'low'})], fresh=fresh, no_inline=ALL, min_sites=0)
    anych = lambda a, p, ev: loop_more(E, a, p, subs) == 1 or ne(a, p, lambda t: strip(t)[0] in ('phi', 'var'), lambda t: isc(t, 'end', 'cend') and strip(t)[2] is not None and subs(strip(t)[2]))
    follow(c, 'R5', 'the shortest history of all consumers is used', g, K, None, done_br=lambda a, p, ev: lt(a, p, lambda t: isc(t, 'getHeight'), lambda t: isc(t, 'getHeight')) or leq(a, p, lambda t: isc(t, 'getHeight'), lambda t: isc(t, 'getHeight')), done=lambda ev: ev.kind == 'call' and ev.name in ('min', 'min_element'), trig_br=anych, no_inline=ALL)
    earliest = lambda n: (lambda ev: writes(n)(ev) and m.call(ev.rhs, 'min') and isc(strip(ev.rhs), 'min'))
    for n in ('timestamp', 'height'):
        tsn = lambda t: isf(t, n)
        follow(c, 'R5', 'the earliest start of all consumers is used', g, K, None, done=earliest(n), done_br=lambda a, p, ev: lt(a, p, tsn, tsn) or leq(a, p, tsn, tsn), trig_br=anych, no_inline=ALL)
    c.gates('R5', g, K, {'h': 'it has the known blocks', 's': 'it has the start'}, br={x: (lambda a, p, ev: is_empty(a, p, subs)) for x in 'hs'}, ev={'h': lambda ev: writes('knownBlocks')(ev) and isc(ev.rhs, 'getShortHistory'), 's': lambda ev: (writes('syncStart')(ev) or writes('timestamp')(ev) and isf(ev.lhs[1], 'syncStart')) and ev.rhs[0] != 'ctor' and any(isc(x, 'getSyncStart') or x[0] in ('obj', 'phi', 'var') and x[-1] != ev.lhs for x in subterms(ev.rhs))}, exits=lambda k, r: {'h', 's'} if k == 'ret' else None, no_inline=ALL, min_sites=1)
    # R6
    g = f['startPoolSync']
    NP = but('getPoolUnionAndIntersection') + (BS + 'getPoolUnionAndIntersection',)
    ask, apply_ = calls(BS + 'getPoolSymmetricDifferenceSync'), calls(BS + 'processPoolTxs')
    reset = lambda ev: writes('isLastKnownBlockActual')(ev) and ev.rhs == FALSE
    actual = lambda v: (lambda a, p, ev: flag(a, p, lambda t: isf(t, 'isLastKnownBlockActual')) == v)
    poole = lambda v: (lambda a, p, ev: ec(a, p, lambda t: m.call(t, 'getPoolSymmetricDifferenceSync')) == v)
    c.gates('R6', g, K, {'ok': 'the node answered without error', 'act': 'the last block is actual', 'no': 'nothing was answered before', 'ids': 'the known transactions are sent', 'last': 'the last block is sent', 'out': 'the last block is outdated', 'end': 'it is reported, or another round follows'},
            br={'ok': poole(0), 'act': actual(1), 'out': actual(0)}, ev={'no': reset, 'ids': lambda ev: ev.kind == 'call' and ev.name in ('assign', 'insert') and isf(ev.obj, 'knownTxIds') if ev.obj is not None else False, 'last': lambda ev: writes('lastKnownBlock')(ev) and isf(ev.rhs, 'lastBlockId'), 'end': lambda ev: done(ev) or again(ev)},
            kills=dict({x: ask for x in ('ok', 'act', 'out', 'ids', 'last')}, no=ask), targets=[('pool passed on', apply_, {'ok', 'act'}), ('node asked', ask, {'no', 'ids', 'last'}), ('blocks asked again', again, {'ok', 'out'})], exits=lambda k, r: {'end'} if k == 'ret' else None, no_inline=ALL, min_sites=4)
    follow(c, 'R6', 'the result of the pool is reported', g, K, apply_, done=done, no_inline=ALL)
    follow(c, 'R6', 'an error of the node is reported', g, K, None, done=done, trig_br=poole(1), no_inline=ALL)
    follow(c, 'R6', 'outdated blocks are asked for again', g, K, None, done=again, trig_br=actual(0), no_inline=ALL)
    idsof = lambda ev: ev.kind == 'call' and ev.name in ('assign', 'insert') and ev.obj is not None and isf(ev.obj, 'knownTxIds')
    gone = lambda ev: (ev.kind == 'call' and ev.name in ('assign', 'swap') and ev.obj is not None and isf(ev.obj, 'deletedTxIds') or writes('deletedTxIds')(ev))
    unequal = lambda a, p, ev: ne(a, p, lambda t: t[0] == 'obj' and 'unordered_set' in str(t), lambda t: t[0] == 'obj' and 'unordered_set' in str(t))
    follow(c, 'R6', 'transactions that no consumer knows are asked for when the consumers differ', g, K, None, done=lambda ev: ask(ev), trig_br=unequal, no_inline=ALL)
    c.gates('R6', g, K, {'same': 'the consumers know the same transactions', 'del': 'transactions unknown to the node are deleted'}, br={'same': lambda a, p, ev: eq(a, p, lambda t: t[0] == 'obj' and 'unordered_set' in str(t), lambda t: t[0] == 'obj' and 'unordered_set' in str(t)), 'del': lambda a, p, ev: eq(a, p, lambda t: t[0] == 'obj' and 'unordered_set' in str(t), lambda t: t[0] == 'obj' and 'unordered_set' in str(t))}, ev={'del': gone},
            targets=[('pool passed on', apply_, {'del'})], no_inline=ALL, min_sites=1)
    hh = Hits(E, K, lambda ev: ask(ev) or apply_(ev) or calls(BS + 'getPoolUnionAndIntersection')(ev), no_inline=ALL)
    c.run(hh, g)
    base = lambda t: strip(t)
    answers = {base(ev.args[1]) for ev in hh.hits if ask(ev)}
    sets = [base(a) for ev in hh.hits if calls(BS + 'getPoolUnionAndIntersection')(ev) for a in ev.args]
    if len(sets) == 2 and all(x[0] == 'obj' for x in list(answers) + sets) and all(apply_(ev) <= (ev.args and base(ev.args[0])[0] == 'obj') for ev in hh.hits):
        lab, br_, ev_, kill_ = {'diff': 'the consumers differ'}, {'diff': unequal}, {}, {}
        of = lambda x: (lambda t: isf(t, 'isLastKnownBlockActual') and base(strip(t)[1]) == x)
        for x in answers:
            n = x[1]
            lab['act ' + n], lab['ask ' + n] = 'the last block is actual by this answer', 'it is the last answer'
            br_['act ' + n] = lambda a, p, ev, x=x: flag(a, p, of(x)) == 1
            ev_['ask ' + n] = lambda ev, x=x: ask(ev) and base(ev.args[1]) == x
            kill_['ask ' + n] = lambda ev, x=x: ask(ev) and base(ev.args[1]) != x
            kill_['act ' + n] = lambda ev, x=x: ask(ev)
        for i, w in ((0, 'known to a consumer'), (1, 'known to all consumers')):
            lab['ids %d' % i] = 'the transactions %s are sent' % w
            ev_['ids %d' % i] = lambda ev, i=i: idsof(ev) and any(y == sets[i] for z in ev.args for y in subterms(z))
            kill_['ids %d' % i] = ask
        c.gates('R6', g, K, lab, br=br_, ev=ev_, kills=kill_, no_inline=ALL, min_sites=2,
                targets=[('pool passed on', lambda ev, x=x: apply_(ev) and base(ev.args[0]) == x, {'act ' + x[1], 'ask ' + x[1]}) for x in answers] + [('node asked', ask, lambda facts: {'ids 1'} if 'diff' in facts else {'ids 0'})])
    g = f['processPoolTxs']
    pu = calls(IC + 'onPoolUpdated', 'onPoolUpdated')
    perr = lambda t: m.call(t, 'onPoolUpdated')
    c.each('R6', 'the pool is passed on to every consumer', g, K, subs, done=pu, exits=lambda k, r: False, no_inline=ALL)
    c.gates('R6', g, K, {'all': 'all consumers have it, one failed, or it is to stop', 'lock': 'the consumers are locked'}, br={'all': lambda a, p, ev: loop_more(E, a, p, subs) == 0 or ec(a, p, perr) == 1 or stopb(1)(a, p, ev)}, ev={'lock': lockd('m_consumersMutex')}, targets=[('pool passed on', pu, {'lock'})], exits=lambda k, r: {'all'} if k == 'ret' else None, no_inline=ALL, min_sites=2)
    follow(c, 'R6', 'an error is returned', g, K, None, trig_br=lambda a, p, ev: ec(a, p, perr) == 1, exits=lambda k, r: k == 'ret' and not (perr(r) or strip(r)[0] in ('phi', 'var')), no_inline=ALL)
    hh = Hits(E, K, pu, no_inline=ALL)
    c.run(hh, g)
    for ev in hh.hits:
        c.check(isf(ev.args[0], 'newTxs') and isf(ev.args[1], 'deletedTxIds'), 'R6', 'new and deleted transactions are passed on', at(ev), construct='arguments of onPoolUpdated')
    g = f['getPoolUnionAndIntersection']
    ids = lambda t: m.call(t, 'getKnownPoolTxIds')
    out = lambda ev: ev.kind == 'call' and ev.name == 'erase'
    here = lambda v: (lambda a, p, ev: stripc(a)[0] == 'in' and p == v or truth_of(a, p, 'count') == v or flag(a, p, lambda t: isc(t, 'count')) == v or v == 0 and eq(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or v == 1 and ne(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')))
    c.gates('R6', g, K, {'miss': 'a consumer does not know it'}, br={'miss': here(0)}, fresh=lambda a, p, ev: ne(a, p, lambda t: strip(t)[0] == 'phi', lambda t: isc(t, 'end')), targets=[('removed from the intersection', out, {'miss'})], min_sites=1)
    follow(c, 'R6', 'a transaction that a consumer does not know is not in the intersection', g, K, None, done=out, trig_br=here(0))
    anych = lambda a, p, ev: loop_more(E, a, p, subs) == 1 or ne(a, p, lambda t: strip(t)[0] in ('phi', 'var'), lambda t: isc(t, 'end', 'cend') and strip(t)[2] is not None and subs(strip(t)[2]))
    into = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace', 'merge')
    follow(c, 'R6', 'the union has the transactions of every consumer', g, K, None, done=into, done_br=lambda a, p, ev: loop_more(E, a, p, lambda t: isc(strip(t), 'getKnownPoolTxIds') and any(x[0] == 'phi' for x in subterms(t))) == 0, trig_br=anych)
    last_ = lambda a, p, ev: loop_more(E, a, p, subs) == 0 or is_empty(a, p, subs) or eq(a, p, lambda t: True, lambda t: isc(t, 'end', 'cend') and strip(t)[2] is not None and subs(strip(t)[2]))
    for n in ('getPoolUnionAndIntersection', 'getCommonHistory'):
        c.gates('R6' if n[3] == 'P' else 'R5', f[n], K, {'all': 'all consumers were looked at'}, br={'all': last_}, ev={'all': lambda ev: ev.kind == 'call' and ev.name in ('for_each', 'min_element', 'accumulate')}, exits=lambda k, r: {'all'} if k == 'ret' else None, no_inline=ALL, min_sites=1)
    # R7
    g = f['doAddUnconfirmedTransaction']
    ad, rm = calls(IC + 'addUnconfirmedTransaction'), calls(IC + 'removeUnconfirmedTransaction')
    aerr = lambda v: (lambda a, p, ev: ec(a, p, lambda t: m.call(t, 'addUnconfirmedTransaction')) == v)
    late = lambda v: (lambda a, p, ev: ec(a, p, lambda t: strip(t)[0] in ('phi', 'obj')) == v)
    c.each('R7', 'every consumer takes the transaction', g, K, subs, done=lambda ev: ad(ev) or rm(ev), exits=lambda k, r: False, no_inline=ALL)
    q = Seq(E, K, ALL, br=lambda st0, a, p: 0 if aerr(0)(a, p, None) or late(0)(a, p, None) else st0, on=lambda st0, ev: (1, st0) if ad(ev) else (st0, False))
    c.run(q, g)
    c.check(not q.bad, 'R7', 'the first error ends the round', at(q.bad[0]) if q.bad else g.qn, construct='added after an error in doAddUnconfirmedTransaction')
    rollback = lambda a, p, ev: ne(a, p, lambda t: strip(t)[0] == 'phi', lambda t: strip(t)[0] == 'phi')
    rollend = lambda a, p, ev: eq(a, p, lambda t: strip(t)[0] == 'phi', lambda t: strip(t)[0] == 'phi')
    follow(c, 'R7', 'after an error no consumer keeps it', g, K, None, done=rm, done_br=lambda a, p, ev: rollend(a, p, ev) or late(0)(a, p, ev) or aerr(0)(a, p, ev) or loop_more(E, a, p, subs) == 0, trig_br=aerr(1), again=True, no_inline=ALL)
    follow(c, 'R7', 'every consumer before the one that failed forgets it', g, K, None, done=rm, trig_br=rollback, no_inline=ALL, min_trigs=0)
    follow(c, 'R7', 'the error is returned', g, K, None, trig_br=aerr(1), again=True, exits=lambda k, r: k == 'ret' and not (m.call(r, 'addUnconfirmedTransaction') or strip(r)[0] in ('phi', 'var')), no_inline=ALL)
    c.gates('R7', g, K, {'err': 'a consumer failed', 'lock': 'the consumers are locked'}, br={'err': lambda a, p, ev: aerr(1)(a, p, ev) or late(1)(a, p, ev)}, ev={'lock': lockd('m_consumersMutex')}, targets=[('rolled back', rm, {'err'}), ('added', ad, {'lock'})], no_inline=ALL, min_sites=2)
    g = f['doRemoveUnconfirmedTransaction']
    c.each('R7', 'every consumer forgets the transaction', g, K, subs, done=rm, no_inline=ALL)
    g = f['actualizeFutureState']
    tasks = ('m_removeTransactionTasks', 'm_addTransactionTasks')
    pop = lambda ev: ev.kind == 'call' and ev.name in ('pop_front', 'erase') and ev.obj is not None and isf(ev.obj, *tasks)
    setv = lambda ev: ev.kind == 'call' and ev.name in ('set_value', 'set_exception')
    follow(c, 'R7', 'a task that was taken gets its result', g, K, pop, done=setv, exc='try', no_inline=ALL, min_trigs=2)
    doa, dor = calls(BS + 'doAddUnconfirmedTransaction'), calls(BS + 'doRemoveUnconfirmedTransaction')
    follow(c, 'R7', 'a task that was taken is done', g, K, pop, done=lambda ev: doa(ev) or dor(ev), exc='try', no_inline=ALL, min_trigs=2)
    front = lambda x: (lambda t: any(isf(y, x) for y in subterms(t)))
    hh = Hits(E, K, lambda ev: doa(ev) or dor(ev), no_inline=ALL)
    c.run(hh, g)
    for ev in hh.hits:
        c.check(front(tasks[1] if doa(ev) else tasks[0])(ev.args[0]) or not any(front(x)(ev.args[0]) for x in tasks), 'R7', 'the task is the one that was taken', at(ev), construct='argument of %s' % ev.name)
    empties = lambda x: (lambda a, p, ev: is_empty(a, p, lambda t: isf(t, x)))
    c.gates('R7', g, K, {t: 'no task is left' for t in tasks}, br={t: empties(t) for t in tasks}, targets=[('state entered', writes('m_currentState'), set(tasks))], no_inline=ALL, min_sites=1)
    for n, t in (('addUnconfirmedTransaction', tasks[1]), ('removeUnconfirmedTransaction', tasks[0])):
        g = f[n]
        put = lambda ev: ev.kind == 'call' and ev.name in ('emplace_back', 'push_back') and ev.obj is not None and isf(ev.obj, t)
        c.gates('R7', g, K, {'cur': 'it runs', 'fut': 'it is not to stop', 'lock': 'the state is locked'}, br={'cur': lambda a, p, ev: not_enum(a, p, lambda x: isf(x, 'm_currentState'), 'stopped'), 'fut': lambda a, p, ev: not_enum(a, p, lambda x: isf(x, 'm_futureState'), 'stopped')}, ev={'lock': lockd('m_stateMutex')}, targets=[('task taken', put, {'cur', 'fut', 'lock'})], exits=None, no_inline=ALL, min_sites=1)
        follow(c, 'R7', 'the thread is woken', g, K, put, done=lambda ev: ev.kind == 'call' and ev.name in ('notify_one', 'notify_all') and ev.obj is not None and isf(ev.obj, 'm_hasWork'), no_inline=ALL)
    # R8
    fut = lambda t: isf(t, 'm_futureState')
    wf = writes('m_futureState')
    g = f['actualizeFutureState']
    c.gates('R8', g, K, {'run': 'it is not to stop', 'lock': 'the state is locked'}, br={'run': lambda a, p, ev: is_enum(a, p, fut, 'blockchainSync', 'poolSync', 'idle') or not_enum(a, p, fut, 'stopped')}, ev={'lock': lockd('m_stateMutex')}, kills={'run': wf, 'lock': unl}, targets=[('next state', wf, {'run', 'lock'}), ('state entered', writes('m_currentState'), {'lock'})], no_inline=ALL, min_sites=2)
    sync = lambda n: calls(BS + n)
    c.gates('R8', g, K, {'b': 'it is to ask for blocks', 'p': 'it is to ask for the pool', 'u': 'the state is not locked', 'next': 'the pool follows the blocks', 'idle': 'it rests after the pool'}, br={'b': lambda a, p, ev: is_enum(a, p, fut, 'blockchainSync'), 'p': lambda a, p, ev: is_enum(a, p, fut, 'poolSync')},
            ev={'u': unl, 'next': lambda ev: wf(ev) and enumv(ev.rhs, 'poolSync'), 'idle': lambda ev: wf(ev) and enumv(ev.rhs, 'idle')}, targets=[('blocks asked for', sync('startBlockchainSync'), {'b', 'u', 'next'}), ('pool asked for', sync('startPoolSync'), {'p', 'u', 'idle'})], no_inline=ALL, min_sites=2)
    cs = lambda t: isf(t, 'm_currentState')
    attach, detach = [(lambda ev, n=n: ev.kind == 'call' and ev.name == n and ev.obj is not None and isf(ev.obj, 'm_node')) for n in ('addObserver', 'removeObserver')]
    c.gates('R8', g, K, {'was': 'it was stopped', 'is': 'it runs now', 'st': 'it is to stop', 'ran': 'it ran'}, br={'was': lambda a, p, ev: is_enum(a, p, cs, 'stopped'), 'is': lambda a, p, ev: is_enum(a, p, fut, 'blockchainSync') or not_enum(a, p, fut, 'stopped'), 'st': lambda a, p, ev: is_enum(a, p, fut, 'stopped'), 'ran': lambda a, p, ev: not_enum(a, p, cs, 'stopped')}, targets=[('node observed', attach, {'was', 'is'}), ('node no longer observed', detach, {'st', 'ran'})], no_inline=ALL, min_sites=2)
    g = f['setFutureStateIf']
    pred = lambda a, p, ev: truth_of(a, p, 'operator()') == 1
    c.gates('R8', g, K, {'pred': 'the condition holds', 'lock': 'the state is locked', 'set': 'the state is set', 'no': 'the condition does not hold'}, br={'pred': pred, 'no': lambda a, p, ev: truth_of(a, p, 'operator()') == 0}, ev={'lock': lockd('m_stateMutex'), 'set': wf}, targets=[('state set', wf, {'pred', 'lock'})], exits=lambda k, r: None if k != 'ret' else {'set'} if r == TRUE else {'no'} if r == FALSE else None, no_inline=ALL, min_sites=2)
    follow(c, 'R8', 'the thread is woken', g, K, wf, done=lambda ev: ev.kind == 'call' and ev.name in ('notify_one', 'notify_all') and ev.obj is not None and isf(ev.obj, 'm_hasWork'), no_inline=ALL)
    hh = Hits(E, K, wf, no_inline=ALL)
    c.run(hh, g)
    for ev in hh.hits:
        c.check(strip(ev.rhs)[0] == 'param', 'R8', 'the state is the one asked for', at(ev), construct='state in setFutureStateIf')
    g = f['actualizeFutureState']
    hh = Hits(E, K, lambda ev: ev.kind == 'call' and ev.name in ('wait', 'wait_for', 'wait_until') and ev.obj is not None and isf(ev.obj, 'm_hasWork'), no_inline=ALL)
    c.run(hh, g)
    for ev in hh.hits:
        for x in [y for z in ev.args for y in subterms(z) if y[0] == 'lam' and y[1] in F.fns]:
            q = Ends(E)
            c.run(q, F.fns[x[1]])
            ok = True
            for st0, r in q.out:
                if r == TRUE:
                    continue
                lv = leaves(list(st0) + ([(r, 0)] if r != FALSE else []))
                ok = ok and any(is_enum(a, p, fut, 'idle') for a, p in lv) and all(any(is_empty(a, p, lambda t: isf(t, y)) for a, p in lv) for y in tasks)
            c.check(ok, 'R8', 'it sleeps only while there is nothing to do', at(ev), construct='sleep of actualizeFutureState')
    # who may write the state, and under which condition
    writers = {BS + 'setFutureStateIf', BS + 'actualizeFutureState', BS + 'BlockchainSynchronizer'}
    for x in F.fns.values():
        if any(last(n) == 'm_futureState' for n in x.names) and x.qn.startswith(BS) and x.qn not in writers:
            w = Hits(E, None, wf)
            c.run(w, x)
            c.check(not w.hits or HERE(x) and only_called_from(F, x, writers), 'R8', 'the state is changed only with its condition', '%s in %s' % (x.loc(), x.qn), construct='m_futureState written in %s' % x.qn)
    n = 0
    for fn in F.fns.values():
        if not fn.qn.startswith(BS) or BS + 'setFutureStateIf' not in fn.names:
            continue
        hh = Hits(E, None, calls(BS + 'setFutureStateIf'))
        hh.exc = 'try'
        c.run(hh, fn)
        for ev in hh.hits:
            want = ev.args[0]
            for x in subterms(ev.args[1]):
                if x[0] != 'lam' or x[1] not in F.fns:
                    continue
                n += 1
                q = Ends(E)
                c.run(q, F.fns[x[1]])
                ok = True
                for st0, r in q.out:
                    if r == FALSE:
                        continue
                    lv = leaves(list(st0) + ([(r, 1)] if r != TRUE else []))
                    safe = any(not_enum(a, p, fut, 'stopped') for a, p in lv)
                    fresh_ = any(is_enum(a, p, fut, 'stopped') for a, p in lv) and any(is_enum(a, p, cs, 'stopped') for a, p in lv)
                    more = any(lt(a, p, fut, lambda t: not enumv(t, 'stopped') or True) for a, p in lv)
                    ok = ok and (safe or more or fresh_ and fn.qn == BS + 'start')
                c.check(ok, 'R8', 'a stop is not overwritten', at(ev), construct='condition of %s' % fn.qn)
    c.check(n >= 3, 'R8', 'the conditions of the states are found', BS + 'setFutureStateIf', construct='conditions of setFutureStateIf')
    enum = F.enums.get('cn::BlockchainSynchronizer::State') if hasattr(F, 'enums') else None
    if enum:
        order = [last(x[0] if isinstance(x, (list, tuple)) else x) for x in enum]
        if all(x in order for x in ('idle', 'poolSync', 'blockchainSync', 'stopped')):
            i = [order.index(x) for x in ('idle', 'poolSync', 'blockchainSync', 'stopped')]
            c.check(i == sorted(i), 'R8', 'a stop has the highest priority', 'src/Transfers/BlockchainSynchronizer.h', construct='order of the states')
    halted = lambda v: (lambda a, p, ev: truth_of(a, p, v) == 1)
    for n in ('addConsumer', 'removeConsumer'):
        g = f[n]
        c.gates('R8', g, K, {'cur': 'it is stopped', 'fut': 'it is to stay stopped'}, br={'cur': halted('checkIfStopped'), 'fut': halted('checkIfShouldStop')}, targets=[('consumers changed', lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace', 'erase') and ev.obj is not None and subs(ev.obj), {'cur', 'fut'})], no_inline=ALL, min_sites=1)
    g = f['stop']
    c.gates('R8', g, K, {'set': 'it is told to stop', 'join': 'the thread has ended'}, ev={'set': lambda ev: ev.kind == 'call' and last(ev.qn) in ('setFutureState', 'setFutureStateIf') and enumv(ev.args[0], 'stopped'), 'join': lambda ev: ev.kind == 'call' and ev.name == 'join'}, br={'join': lambda a, p, ev: flag(a, p, lambda t: m.fld(t, 'workingThread')) == 0 or truth_of(a, p, 'joinable') == 0},
            exits=lambda k, r: {'set', 'join'} if k == 'ret' else None, targets=[('thread awaited', lambda ev: ev.kind == 'call' and ev.name == 'join', {'set'})], no_inline=ALL, min_sites=1)
    g = f['workingProcedure']
    c.gates('R8', g, K, {'stop': 'it is to stop', 'last': 'the stop is carried out'}, br={'stop': stopb(1)}, ev={'last': sync('actualizeFutureState')}, kills={'last': lambda ev: ev.kind == 'call' and last(ev.qn or '') == 'checkIfShouldStop'}, exits=lambda k, r: {'stop', 'last'} if k == 'ret' else None, no_inline=ALL, min_sites=1)
