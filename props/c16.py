"""Relaying: only what this node itself accepted goes out to other peers."""
from .common import *
from .c14 import FULL, NS, PH, STATE

META = dict(
    title='Only blocks and transactions this node accepted are relayed to other peers',
    statement='A block is announced to other peers only after it became part of this node\'s main chain, with all of its transactions, and a transaction only after it entered the pool with valid inputs and was marked for relaying, whether it came from a peer, the RPC interface, the local wallet or the miner. Transactions that were refused are taken out of an announcement before it is passed on, and announcements of transactions and lite blocks do not go back to the peer they came from. Every connected peer receives an accepted block in the form its version understands.',
    over=['inputs', 'histories'],
    qtext='every block and transaction offered through any interface, in every state of chain and pool',
    why='A node that relays what it rejects amplifies attacks and is banned by its peers; tests do not run a network with invalid data.',
    files=['src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp', 'src/CryptoNoteCore/Core.cpp', 'src/CryptoNoteCore/TransactionPool.cpp', 'src/Rpc/RpcServer.cpp', 'src/InProcessNode/InProcessNode.cpp'],
    mechanism=[('relay of announcements', 'CryptoNoteProtocolHandler::handle_notify_new_block, handle_notify_new_transactions, doPushLiteBlock'), ('relay of own blocks', 'core::handle_incoming_block'), ('relay of submitted transactions', 'RpcServer::on_send_raw_tx, InProcessNode::doRelayTransaction'), ('sorting of the peers', 'CryptoNoteProtocolHandler::relay_block')],
    state=[('verdict on a transaction', 'accepted, to be relayed', 'tx_verification_context'), ('verdict on a block', 'added to the main chain', 'block_verification_context')],
    observe=['messages that leave the node'],
    technique='path-sensitive gate analysis over the CFG, and a closed list of the functions that announce',
    level_note='Decides that on every path to an announcement the verdicts were tested; what the verdict means is decided by the properties on blocks and transactions.',
)
MIN = 15
EXPLAIN = 'Every CFG path of the functions that announce blocks or transactions, with their helpers; obligations are one per announcement and required verdict, one per sender left out and one per function that announces.'

FULL.update({'relay_transactions': PH + 'relay_transactions', 'drop_connection': NS + 'drop_connection'})
VC = {'cn::tx_verification_context::m_verification_failed', 'cn::tx_verification_context::m_should_be_relayed', 'cn::block_verification_context::m_added_to_main_chain', 'm_state'}
CORE = ('handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block')
ANN = {'relay_block', 'relay_transactions', 'relay_notify_to_all', 'externalRelayNotifyToAll', 'externalRelayNotifyToList', 'relay_post_notify'}


def stop(*names):
    return tuple(FULL[n] for n in names)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'a block that came from a peer is passed on only if it was added to the main chain')
    c.rule('R2', 'an announcement of transactions is passed on only after every transaction in it was handled and the refused ones were taken out')
    c.rule('R3', 'a transaction submitted over RPC or by the local wallet is announced only if it was processed, passed verification and is to be relayed')
    c.rule('R4', 'a transaction is marked for relaying only after it entered the pool with valid inputs')
    c.rule('R5', 'a block of our own is announced only if asked for, added to the main chain and complete with its transactions')
    c.rule('R6', 'an accepted block goes to every connection: as lite block to those whose version supports it, whole to the others')
    c.rule('R7', 'announcements of transactions and lite blocks leave out the connection they came from')
    c.rule('R8', 'no other function announces blocks or transactions')
    added = lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_added_to_main_chain')) == 1
    failed = lambda t: isf(t, 'm_verification_failed')
    relayed = lambda t: isf(t, 'm_should_be_relayed')
    NI = stop(*CORE) + stop('updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block', 'drop_connection', 'relay_transactions')
    ann = calls(*(ANN - {'relay_notify_to_all'}))
    here = set()
    for q in ('handle_notify_new_block', 'doPushLiteBlock'):
        f = F.q1(PH + q)
        here.add(f.qn)
        blk = calls('handle_incoming_block_blob', 'handle_incoming_block')
        c.gates('R1', f, VC | {FULL[x] for x in CORE} | {'cn::relay_post_notify'}, {'handled': 'the core took a decision on it', 'added': 'it was added to the main chain'}, br={'added': added}, ev={'handled': blk}, kills={'added': blk}, targets=[('block passed on', ann, {'handled', 'added'})], no_inline=NI, min_sites=1)
    ft = F.q1(PH + 'handle_notify_new_transactions')
    here.add(ft.qn)
    txs = lambda t: isf(t, 'txs')
    K2 = VC | {FULL[x] for x in CORE} | {'cn::relay_post_notify', 'cn::NOTIFY_NEW_TRANSACTIONS_request::txs'}
    N2 = NI + (PH + 'doPushLiteBlock',)
    c.gates('R2', ft, K2, {'all': 'every transaction of the announcement was handled'}, br={'all': lambda a, p, ev: loop_more(E, a, p, txs) == 0}, targets=[('transactions passed on', ann, {'all'})], no_inline=N2, min_sites=1)
    ok = Kept(E, K2, N2, txs, failed, relayed, ann)
    c.run(ok, ft)
    for w in sorted(WORDS):
        b = ok.bad.get(w) or (ok.stay.get(w) if not gathers(ok) else None)
        what = 'a transaction that stays in the announcement ' + w
        if b:
            c.bad('R2', what, '%s in %s' % (b[0].fn.loc(b[0].line), ft.qn), b[1], construct='%s in %s' % (what, ft.qn))
        elif ok.loops:
            c.ok('R2', what, '%s in %s' % (ft.loc(), ft.qn))
    if not ok.loops:
        c.bad('R2', 'the transactions of the announcement are handled one by one', '%s in %s' % (ft.loc(), ft.qn), construct='no loop in ' + ft.qn)
    # R3
    for qn in ('cn::RpcServer::on_send_raw_tx', 'cn::InProcessNode::doRelayTransaction'):
        f = F.q1(qn)
        here.add(qn)
        htx = calls('handle_incoming_tx')
        c.gates('R3', f, VC | {FULL['handle_incoming_tx']}, {'handled': 'the core processed it', 'passed': 'it passed verification', 'relay': 'it is to be relayed', 'in': 'the announcement holds it'},
                br={'handled': lambda a, p, ev: truth_of(a, p, 'handle_incoming_tx') == 1, 'passed': lambda a, p, ev: flag(a, p, failed) == 0, 'relay': lambda a, p, ev: flag(a, p, relayed) == 1},
                ev={'in': lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and isf(ev.obj, 'txs') and any(m.call(x, 'toBinaryArray') or m.param(x) or 'tx_as_hex' in str(x) or 'fromHex' in str(x) for x in ev.args) or writes('txs')(ev)},
                targets=[('transaction announced', calls('relay_transactions'), {'handled', 'passed', 'relay', 'in'})], no_inline=NI, min_sites=1, exc='try')
    # R4
    n = 0
    mark = lambda ev: writes('m_should_be_relayed')(ev) and strip(ev.rhs) != FALSE
    for f in F.q('cn::tx_memory_pool::add_tx'):
        if 'm_should_be_relayed' not in {last(x) for x in f.names}:
            continue
        n += 1
        c.gates('R4', f, {'m_should_be_relayed', 'cn::tx_verification_context::m_should_be_relayed', 'cn::tx_memory_pool::m_transactions'}, {'entered': 'it was entered in the pool', 'valid': 'its inputs are valid'},
                br={'entered': lambda a, p, ev: flag(a, p, lambda t: m.fld(t, 'm_transactions') and m.call(t, 'insert', 'emplace') or isf(t, 'second')) == 1, 'valid': lambda a, p, ev: truth_of(a, p, 'checkTransactionInputs') == 1},
                targets=[('marked for relaying', mark, {'entered', 'valid'})], min_sites=1)
    if not n:
        c.bad('R4', 'the pool decides what is relayed', 'src/CryptoNoteCore/TransactionPool.cpp', construct='m_should_be_relayed')
    for f in list(F.fns.values()):
        if f.rel().startswith('src/') and 'cn::tx_verification_context::m_should_be_relayed' in f.names and f.qn != 'cn::tx_memory_pool::add_tx' and not only_called_from(F, f, {'cn::tx_memory_pool::add_tx'}):
            got = Marks(E, mark)
            c.run(got, f)
            c.check(not got.hit, 'R4', 'nothing but the pool marks a transaction for relaying', '%s in %s' % (f.loc(), f.qn), construct='mark in ' + f.qn)
    # R5
    fi = F.q1('cn::core::handle_incoming_block')
    here.add(fi.qn)
    K5 = VC | {'cn::NOTIFY_NEW_BLOCK_request::b', 'cn::i_cryptonote_protocol::relay_block', 'cn::block_complete_entry::txs'}
    found = lambda a, p, ev: is_empty(a, p, lambda t: 'crypto::Hash' in str(strip(t)[2:]) and strip(t)[0] in ('obj', 'var', 'out') or 'out:' in show(t))
    n5 = ('cn::Blockchain::addNewBlock', 'cn::core::pause_mining', 'cn::core::update_block_template_and_resume_mining')
    c.gates('R5', fi, K5, {'asked': 'the announcement was asked for', 'handled': 'the chain took a decision on it', 'added': 'it was added to the main chain', 'complete': 'all of its transactions were found', 'block': 'the announcement holds the block', 'txs': 'the announcement holds its transactions'},
            br={'asked': lambda a, p, ev: flag(a, p, lambda t: t[0] == 'param') == 1, 'added': added, 'complete': found, 'txs': lambda a, p, ev: more0(E, a, p)},
            ev={'handled': calls('addNewBlock'), 'block': lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == 'block'},
            targets=[('block announced', calls('relay_block'), {'asked', 'handled', 'added', 'complete', 'block', 'txs'})], no_inline=n5, min_sites=1)
    # R6
    fb = F.q1(PH + 'relay_block')
    here.add(fb.qn)
    lam = [g for g in roots(F, PH + 'relay_block') if g is not fb]
    for g in lam:
        here.add(g.qn)
    listed = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'push_front') and any(isf(x, 'm_connection_id') for x in ev.args)
    conns = [g for g in lam + [fb] if Hit(E, g, listed, c).hit]
    if not conns:
        c.bad('R6', 'the connections are sorted by version', '%s in %s' % (fb.loc(), fb.qn), construct='connections in ' + fb.qn)
    VG = {'new': lambda a, p, ev: leq(a, p, lambda t: m.glob(t, 'P2P_LITE_BLOCKS_PROPOGATION_VERSION'), lambda t: isf(t, 'version')), 'old': lambda a, p, ev: lt(a, p, lambda t: isf(t, 'version'), lambda t: m.glob(t, 'P2P_LITE_BLOCKS_PROPOGATION_VERSION'))}
    for g in conns:
        if g is not fb:
            c.gates('R6', g, None, {'listed': 'every connection is noted as a receiver'}, ev={'listed': listed}, exits=lambda k, r: {'listed'} if k == 'ret' else None)
        lists = Lists(E, listed, VG)
        c.run(lists, g)
        for o, tags in sorted(lists.got.items()):
            c.check(len(tags) == 1 and 'none' not in tags, 'R6', 'a list of receivers holds connections of one kind of version only', '%s in %s' % (g.loc(), g.qn), construct='list %s in %s' % (o.split('@')[0], fb.qn))
        c.check({t for s in lists.got.values() for t in s} >= {'new', 'old'}, 'R6', 'both kinds of connections are noted', '%s in %s' % (g.loc(), g.qn), construct='kinds in ' + fb.qn)
        new = {o for o, t in lists.got.items() if t == {'new'}}
        sent = Sent(E, c)
        c.run(sent, fb)
        c.check(sent.lists <= new and sent.lists and sent.light, 'R6', 'lite blocks go to the list of connections that support them', '%s in %s' % (fb.loc(), fb.qn), construct='lite receivers in ' + fb.qn)
        c.check(sent.full, 'R6', 'the whole block is announced to the other connections', '%s in %s' % (fb.loc(), fb.qn), construct='full receivers in ' + fb.qn)
    # R7
    k = 0
    for f in F.q('cn::relay_post_notify'):
        got = Calls(E, set(), (), lambda ev: ev.name == 'relay_notify_to_all')
        c.run(got, f)
        here.add(f.qn)
        for ev in got.hits:
            k += 1
            c.check(len(ev.args) > 2 and m.param(ev.args[2]), 'R7', 'the connection to leave out is handed on', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='excluded connection in ' + f.qn)
    for f in (ft, F.q1(PH + 'doPushLiteBlock')):
        got = Calls(E, VC | {'cn::relay_post_notify'}, (N2 if f is ft else NI) + ('cn::relay_post_notify', NS + 'relay_notify_to_all'), lambda ev: ev.name in ('relay_notify_to_all', 'relay_post_notify'))
        c.run(got, f)
        if not got.hits:
            c.bad('R7', 'the announcement is passed on', '%s in %s' % (f.loc(), f.qn), construct='sender left out in ' + f.qn)
        for ev in got.hits:
            k += 1
            c.check(len(ev.args) > 2 and m.fld(ev.args[2], 'm_connection_id'), 'R7', 'the connection the message came from is left out', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='sender left out in ' + f.qn)
    if not k:
        c.bad('R7', 'announcements are passed on without their sender', 'cn::relay_post_notify', construct='relay_post_notify')
    # R8
    here |= {PH + 'relay_transactions', PH + 'relay_block', NS + 'externalRelayNotifyToAll', NS + 'externalRelayNotifyToList', NS + 'relay_notify_to_all'}
    for f in list(F.fns.values()):
        if not f.rel().startswith('src/') or not {last(x) for x in f.names} & ANN:
            continue
        if f.qn in here or any(f.qn.startswith(h) and '$lambda' in f.qn for h in here) or '$lambda' in f.id and any(f.id.startswith(h + '(') for h in here) or only_called_from(F, f, here) or '/P2pNode' in f.rel() or '/P2pContext' in f.rel():
            if f.qn in here:
                c.ok('R8', 'the function is one of those examined above', '%s in %s' % (f.loc(), f.qn))
            continue
        got = Calls(E, set(), (), lambda ev: ev.name in ANN, max_depth=0)
        c.run(got, f)
        c.check(not got.hits, 'R8', 'no other function announces', '%s in %s' % (f.loc(), f.qn), construct='announcement in ' + f.qn)


def gathers(k):
    return bool(k.gather)


def more0(E, a, p):
    """a loop over a local list of transactions is left at its end"""
    return loop_more(E, a, p, lambda t: strip(t)[0] in ('obj', 'var') and 'Transaction' in str(strip(t)[2:])) == 0


class Hit(Rule):
    init, keys = 0, None

    def __init__(self, E, fn, pred, c):
        self.E, self.pred = E, pred
        self.max_depth = 1
        self.reset()
        c.run(self, fn)

    def reset(self):
        self.hit = 0

    def event(self, f, ev, st):
        if self.pred(ev):
            self.hit = 1
        return f


class Marks(Rule):
    init = 0

    def __init__(self, E, pred):
        self.E, self.pred = E, pred
        self.keys, self.max_depth = {'cn::tx_verification_context::m_should_be_relayed'}, 0
        self.reset()

    def reset(self):
        self.hit = 0

    def event(self, f, ev, st):
        if self.pred(ev):
            self.hit = 1
        return f


class Lists(Rule):
    """which version test leads to which list"""
    init, keys = 'none', None

    def __init__(self, E, listed, gates):
        self.E, self.listed, self.gates = E, listed, gates
        self.max_depth = 1
        self.reset()

    def reset(self):
        self.got = {}

    def event(self, f, ev, st):
        if self.final and self.listed(ev):
            self.got.setdefault(show(ev.obj).split('.')[-1].split('@')[0], set()).add(f)
        return f

    def branch(self, f, a, p, ev):
        for n, g in self.gates.items():
            if g(a, p, ev):
                return n
        return f


class Sent(Rule):
    init, keys = 0, None

    def __init__(self, E, c):
        self.E, self.c = E, c
        self.max_depth = 1
        self.reset()

    def reset(self):
        self.lists, self.light, self.full = set(), False, False

    def event(self, f, ev, st):
        if ev.kind == 'call' and self.final and ev.name in ('externalRelayNotifyToList', 'externalRelayNotifyToAll', 'relay_notify_to_all'):
            lite = 'NEW_LITE_BLOCK' in str(ev.args[0])
            if ev.name == 'externalRelayNotifyToList':
                n = show(ev.args[2]).split('.')[-1].split('@')[0]
                if lite:
                    self.lists.add(n)
                    self.light = True
                else:
                    self.full = True
            elif lite:
                self.lists.add('all')
            else:
                self.full = True
        return f


WORDS = {'passed verification', 'is to be relayed', 'was processed'}


class Kept(Rule):
    """one transaction of the announcement at a time: it is taken out, or its verdict allows it to stay"""

    def __init__(self, E, keys, ni, txs, failed, relayed, ann):
        self.E, self.keys, self.no_inline, self.txs, self.failed, self.relayed = E, keys, ni, txs, failed, relayed
        self.init = None
        self.reset()

    def reset(self):
        self.bad, self.loops, self.gather, self.stay = {}, 0, 0, {}

    def event(self, f, ev, st):
        if f is None:
            return f
        if ev.kind == 'call' and ev.name == 'handle_incoming_tx':
            return (f[0] | {'was processed'}, f[1])
        if ev.kind == 'call' and ev.name in ('erase', 'remove') and ev.obj is not None and self.txs(ev.obj):
            return (f[0], True)
        if ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'splice') and ev.obj is not None and 'string' in str(ev.obj) and self.final:
            # the accepted ones are gathered instead
            self.gather = 1
            for w in WORDS - f[0]:
                self.bad.setdefault(w, (ev, self.E.path(st) or []))
            return (f[0], True)
        return f

    def branch(self, f, a, p, ev):
        if f is not None:
            if flag(a, p, self.failed) == 0:
                f = (f[0] | {'passed verification'}, f[1])
            if flag(a, p, self.relayed) == 1:
                f = (f[0] | {'is to be relayed'}, f[1])
        t = loop_more(self.E, a, p, self.txs)
        if t is None:
            return f
        # the loop that hands the transactions to the pool
        if f is not None and 'was processed' in f[0]:
            self.loops = 1
            if not f[1] and self.final:
                for w in WORDS - f[0]:
                    self.stay.setdefault(w, (ev, []))
        return (frozenset(), False) if t else None
