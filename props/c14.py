"""Peer sessions: handshake, gating by the state of the connection, closing."""
from .common import *

META = dict(
    title='Only peers that completed the handshake take part, and refused ones are closed',
    statement='A connection is associated with a peer only after a handshake with the right network id and a supported version, once per connection, incoming handshakes only on incoming connections and never with ourselves; a handshake that is refused closes the connection. Blocks and transactions announced by a peer reach the core only while its connection is in the normal state, and announcements and timed syncs are sent only to peers that completed the handshake and are in a state to receive them, and not to the connection that is to be left out. A connection marked for shutdown processes no further command, and the peer count counts each connection that completed a handshake exactly once while it is open.',
    over=['histories', 'inputs'],
    qtext='every sequence of commands that a peer can send, in every state of the connection',
    why='A hostile or foreign peer chooses the sequence of its messages; tests exercise the usual one.',
    files=['src/P2p/NetNode.cpp', 'src/P2p/NetNode.h', 'src/P2p/LevinProtocol.h', 'src/P2p/ConnectionContext.h', 'src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp'],
    mechanism=[('incoming handshake', 'NodeServer::handle_handshake'), ('outgoing handshake', 'NodeServer::handshake, NodeServer::try_to_connect_and_handshake_with_new_peer'), ('gating', 'CryptoNoteProtocolHandler::handle_notify_*, process_payload_sync_data'), ('closing', 'NodeServer::connectionHandler'), ('back ping', 'NodeServer::try_ping')],
    state=[('connection state', 'before handshake, synchronizing, normal, shutdown', 'CryptoNoteConnectionContext::m_state'), ('peer id', 'set once the handshake succeeded', 'P2pConnectionContext::peerId'), ('peer count', 'connections that completed a handshake', 'CryptoNoteProtocolHandler::m_peersCount')],
    observe=['whether messages of a peer have an effect', 'which connections receive relayed messages', 'peer count reported by RPC'],
    technique='typestate of the connection: path-sensitive gate analysis over the CFG of the command handlers',
    level_note='Decides that the tests are made with the right operands on every path before the guarded step; equality of network ids and the protocol constants themselves are not evaluated.',
)
MIN = 30
EXPLAIN = 'Every CFG path of the handshake, relay, notification and connection-loop functions with their helpers; obligations are one per guarded step and required test, and one per writer of the peer id and the peer count.'

NS, PH = 'cn::NodeServer::', 'cn::CryptoNoteProtocolHandler::'
K = {'cn::P2pConnectionContext::peerId', 'cn::CryptoNoteConnectionContext::m_state', 'cn::CryptoNoteConnectionContext::m_is_income', 'cn::basic_node_data::network_id', 'cn::basic_node_data::version'}
FULL = {n: 'cn::NodeServer::' + n for n in ('try_ping', 'handle_remote_peerlist', 'handleCommand', 'on_connection_close', 'on_connection_new', 'handleTimedSyncResponse', 'handshake')}
FULL.update({n: 'cn::CryptoNoteProtocolHandler::' + n for n in ('process_payload_sync_data', 'updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block', 'on_connection_synchronized', 'recalculateMaxObservedHeight', 'start_sync', 'onConnectionClosed')})
FULL.update({n: 'cn::LevinProtocol::' + n for n in ('invoke', 'decode', 'readCommand')})
FULL.update({n: 'cn::core::' + n for n in ('handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block')})
FULL.update({n: 'cn::PeerlistManager::' + n for n in ('set_peer_just_seen', 'append_with_peer_white', 'append_with_peer_anchor', 'is_ip_allowed')})
FULL.update({'pushMessage': 'cn::P2pConnectionContext::pushMessage', 'invokeAdaptor': 'cn::invokeAdaptor'})


def stop(*names):
    return tuple(FULL[n] for n in names)


STATE = lambda t: isf(t, 'm_state')


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'incoming handshake: the peer id is set, and the peer\'s chain data processed, only after the network id, version, direction and first-handshake tests; every other outcome closes the connection')
    c.rule('R2', 'outgoing handshake: it succeeds only after the reply was received and its network id, version, peer list and chain data accepted and the peer is not ourselves; only then is the connection kept and the peer listed')
    c.rule('R3', 'announced blocks and transactions reach the core only in the normal state; chain data before the handshake changes nothing')
    c.rule('R4', 'messages are queued for a peer by relays and timed syncs only when it has a peer id and a fitting state, and not for the excluded connection')
    c.rule('R5', 'the connection loop leaves when the state is shutdown before it reads another command, and reports the closed connection')
    c.rule('R6', 'the peer count goes up once per handshaken connection and down once when a counted one closes')
    c.rule('R7', 'a peer that connected to us is listed as reachable only after a ping back to its address and port was answered with the same peer id')
    node = lambda n: (lambda t: isf(t, n) and m.fld(t, 'node_data'))
    own = lambda n: (lambda t: isf(t, n) and not m.fld(t, 'node_data'))
    G = {
        'network': lambda a, p, ev: eq(a, p, node('network_id'), own('m_network_id')),
        'version': lambda a, p, ev: leq(a, p, lambda t: m.glob(t, 'P2P_MINIMUM_VERSION'), node('version')),
        'income': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_is_income')) == 1,
        'first': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'peerId')) == 0,
        'payload': lambda a, p, ev: truth_of(a, p, 'process_payload_sync_data') == 1,
        'self': lambda a, p, ev: ne(a, p, node('peer_id'), own('m_peer_id')),
        'invoked': lambda a, p, ev: truth_of(a, p, 'invoke') == 1,
        'peerlist': lambda a, p, ev: truth_of(a, p, 'handle_remote_peerlist') == 1,
        'listonly': lambda a, p, ev: flag(a, p, lambda t: m.param(t)) == 1,
        'full': lambda a, p, ev: flag(a, p, lambda t: m.param(t)) == 0,
    }
    T = {'network': 'the network id of the peer is ours', 'version': 'its version is at least the minimum', 'income': 'the connection is an incoming one', 'first': 'the connection has no peer id yet', 'payload': 'its chain data was accepted',
         'self': 'the peer is not ourselves', 'invoked': 'the handshake command was answered', 'peerlist': 'its peer list was accepted', 'flag': 'the connection is accepted or marked for shutdown', 'hs': 'the handshake returned success', 'full': 'more than the peer list was asked for'}
    pid = writes('peerId')
    shut = lambda ev: writes('m_state')(ev) and enumv(ev.rhs, 'state_shutdown')
    payload = calls('process_payload_sync_data')
    INC = ('network', 'version', 'income', 'first')
    fn = F.q1(NS + 'handle_handshake')
    c.gates('R1', fn, K, T, br={k: G[k] for k in INC + ('payload',)}, ev={'flag': lambda ev: shut(ev) or pid(ev)}, targets=[('peer id set', pid, set(INC) | {'payload'}), ('chain data', payload, set(INC))],
            exits=lambda k, r: {'flag'} if k == 'ret' else None, no_inline=stop('process_payload_sync_data', 'try_ping'), min_sites=3)
    fh = F.q1(NS + 'handshake')
    OUT = ('invoked', 'network', 'version', 'peerlist')
    c.gates('R2', fh, K, T, br={k: G[k] for k in OUT + ('self', 'payload')}, targets=[('peer id set', pid, set(OUT) | {'self', 'payload'}), ('chain data', payload, set(OUT) | {'self'}), ('peer listed', calls('set_peer_just_seen', 'append_with_peer_white'), set(OUT) | {'self', 'payload'})],
            exits=lambda k, r: {'invoked', 'network', 'version', 'peerlist'} if succ(k, r) else None, no_inline=stop('process_payload_sync_data', 'invoke', 'handle_remote_peerlist', 'set_peer_just_seen'), min_sites=3)
    # success without processing the chain data only when just the peer list is asked for
    c.gates('R2', fh, K, {'done': 'the chain data was processed, or only the peer list was asked for'}, br={'done': lambda a, p, ev: G['payload'](a, p, ev) or G['listonly'](a, p, ev)},
            exits=lambda k, r: {'done'} if succ(k, r) else None, no_inline=stop('process_payload_sync_data', 'invoke', 'handle_remote_peerlist', 'set_peer_just_seen'))
    ft = F.q1(NS + 'try_to_connect_and_handshake_with_new_peer')
    kept = lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert', 'operator[]', 'try_emplace') and ev.obj is not None and isf(ev.obj, 'm_connections')
    hs2 = lambda a, p, ev: truth_of(a, p, 'get', 'handshake') == 1
    c.gates('R2', ft, {'cn::NodeServer::m_connections', 'cn::NodeServer::m_peerlist'}, T, br={'hs': hs2, 'full': lambda a, p, ev: flag(a, p, lambda t: m.param(t)) == 0},
            targets=[('connection kept', kept, {'hs', 'full'}), ('peer listed', calls('append_with_peer_white', 'append_with_peer_anchor', 'set_peer_just_seen'), {'hs', 'full'})], exits=lambda k, r: {'hs'} if succ(k, r) else None, min_sites=4, no_inline=stop('handshake', 'append_with_peer_white', 'append_with_peer_anchor'))
    n = 0
    for r in roots(F, ft.qn):
        if r is not ft and any(F.fns[x].name == 'handshake' for x in r.calls if x in F.fns):
            n += 1
            ret = [v for k, v, s, l in c.run(Calls(E, {FULL['handshake']}, stop('handshake'), lambda ev: False), r) if k == 'ret']
            c.check(all(isc(v, 'handshake') for v in ret) and ret, 'R2', 'the result of the handshake decides whether the connection is kept', '%s in %s' % (r.loc(), ft.qn), construct='handshake result in ' + ft.qn)
    # R3
    norm = lambda a, p, ev: is_enum(a, p, STATE, 'state_normal')
    core = calls('handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block')
    for q in ('handle_notify_new_block', 'handle_notify_new_transactions', 'handle_notify_new_lite_block'):
        for f in F.q(PH + q):
            c.gates('R3', f, {'handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block', 'cn::CryptoNoteConnectionContext::m_state'}, {'normal': 'the connection is in the normal state'}, br={'normal': norm},
                    targets=[('announced data', core, {'normal'})], no_inline=stop('handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block', 'updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block'), min_sites=1)
    fp = F.q1(PH + 'process_payload_sync_data')
    hsd = lambda a, p, ev: not_enum(a, p, STATE, 'state_befor_handshake') or is_enum(a, p, STATE, *[s for s in ('state_synchronizing', 'state_normal', 'state_idle')]) or flag(a, p, lambda t: m.param(t)) == 1
    up = lambda ev: ev.kind == 'call' and ev.obj is not None and isf(ev.obj, 'm_peersCount') and (ev.name in ('operator++', 'fetch_add', 'operator+=', 'operator=', 'store'))
    down = lambda ev: ev.kind == 'call' and ev.obj is not None and isf(ev.obj, 'm_peersCount') and (ev.name in ('operator--', 'fetch_sub', 'operator-='))
    KP = K | {PH + 'm_peersCount', 'cn::CryptoNoteConnectionContext::m_is_counted', 'cn::CryptoNoteConnectionContext::m_remote_blockchain_height'}
    c.gates('R3', fp, KP, {'hs': 'the handshake is done or is being done'}, br={'hs': hsd}, targets=[('connection changed', lambda ev: writes('m_state')(ev) or writes('m_remote_blockchain_height')(ev) or up(ev) or calls('updateObservedHeight')(ev), {'hs'})],
            no_inline=stop('updateObservedHeight', 'on_connection_synchronized'), min_sites=4)

    # R4
    send = lambda ev: ev.kind == 'call' and ev.name == 'pushMessage'
    SEND = {'peer': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'peerId')) == 1,
            'relay': lambda a, p, ev: is_enum(a, p, STATE, 'state_normal', 'state_synchronizing'),
            'sync': lambda a, p, ev: is_enum(a, p, STATE, 'state_normal', 'state_idle'),
            'other': lambda a, p, ev: ne(a, p, lambda t: isf(t, 'm_connection_id'), anyt),
            'listed': lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find') , lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1 or stripc(a)[0] == 'in' and p == 1}
    TS = {'peer': 'the peer completed the handshake', 'relay': 'its state is normal or synchronizing', 'sync': 'its state is normal or idle', 'other': 'it is not the connection to leave out', 'listed': 'the connection is in the list of receivers'}
    for q, need in (('relay_notify_to_all', ('peer', 'relay', 'other')), ('externalRelayNotifyToList', ('peer', 'relay', 'listed')), ('timedSync', ('peer', 'sync'))):
        k = 0
        for r in roots(F, NS + q):
            got = Calls(E, {FULL['pushMessage']}, stop('pushMessage'), send)
            c.run(got, r)
            if not got.hits or '$lambda' not in r.id and any(g is not r for g in roots(F, NS + q)) and not any(h.fn is r for h in got.hits):
                continue
            if any('$lambda' in g.id and g.id.startswith(r.id) and g is not r for g in roots(F, NS + q)) and not any(h.fn is r for h in got.hits):
                continue
            k += 1
            c.gates('R4', r, K | {'cn::CryptoNoteConnectionContext::m_connection_id', FULL['pushMessage']}, TS, br={x: SEND[x] for x in need}, targets=[('message queued', send, set(need))], no_inline=stop('pushMessage'))
        if not k:
            c.bad('R4', 'the relay queues the message for the peers', NS + q, construct='relay in ' + NS + q)
    # R5
    loops = [r for r in roots(F, NS + 'connectionHandler') if any(F.fns[x].name == 'handleCommand' for x in r.calls if x in F.fns)]
    if not loops:
        c.bad('R5', 'the connection loop handles commands', NS + 'connectionHandler', construct='loop of ' + NS + 'connectionHandler')
    for r in loops:
        closed = calls('on_connection_close', 'onConnectionClosed')
        KL = {'handleCommand', 'on_connection_close', 'onConnectionClosed', 'cn::CryptoNoteConnectionContext::m_state'}
        NI = stop('handleCommand', 'on_connection_close', 'onConnectionClosed', 'start_sync', 'requestMissingPoolTransactions', 'on_connection_new', 'readCommand')
        follow(c, 'R5', 'after a command the connection is left if its state is shutdown', r, KL, calls('handleCommand'), done=closed, done_br=lambda a, p, ev: not_enum(a, p, STATE, 'state_shutdown'), no_inline=NI)
        c.gates('R5', r, KL, {'closed': 'the protocol is told that the connection is closed'}, ev={'closed': closed}, exits=lambda k, ret: {'closed'} if k == 'ret' else None, no_inline=NI)
    for q, what in (('handle_timed_sync', 'process_payload_sync_data'),):
        f = F.q1(NS + q)
        follow(c, 'R5', 'chain data that is refused closes the connection', f, K, None, trig_br=lambda a, p, ev: truth_of(a, p, 'process_payload_sync_data') == 0, done=shut, no_inline=stop('process_payload_sync_data'))
    f = F.q1(NS + 'handleCommand')
    follow(c, 'R5', 'a timed sync response that is refused closes the connection', f, K, None, trig_br=lambda a, p, ev: truth_of(a, p, 'handleTimedSyncResponse') == 0, done=shut, no_inline=stop('handleTimedSyncResponse', 'invokeAdaptor'))
    f = F.q1(NS + 'handleTimedSyncResponse')
    c.gates('R5', f, K, {'decoded': 'the response was decoded', 'peerlist': T['peerlist'], 'payload': T['payload']}, br={'decoded': lambda a, p, ev: truth_of(a, p, 'decode') == 1, 'peerlist': G['peerlist'], 'payload': G['payload']},
            exits=lambda k, ret: {'decoded', 'peerlist', 'payload'} if succ(k, ret) else None, no_inline=stop('decode', 'handle_remote_peerlist', 'process_payload_sync_data'))
    f = F.q1(NS + 'drop_connection')
    c.gates('R5', f, K, {'shut': 'dropping a connection marks it for shutdown'}, ev={'shut': shut}, exits=lambda k, ret: {'shut'} if k == 'ret' else None)

    # R6
    cf = lambda t: isf(t, 'm_is_counted')
    c.gates('R6', fp, KP, {'new': 'the connection is not counted yet', 'hs': 'the handshake is being done', 'mark': 'it is marked as counted'},
            br={'new': lambda a, p, ev: flag(a, p, cf) == 0, 'hs': lambda a, p, ev: flag(a, p, lambda t: m.param(t)) == 1},
            targets=[('count up', up, {'new', 'hs'}), ('mark', writes('m_is_counted', lambda v: v == TRUE), {'new', 'hs'})], no_inline=stop('updateObservedHeight', 'on_connection_synchronized'), min_sites=2)
    counted = Counted(E, KP, cf, up, down, m)
    for f in (fp, F.q1(PH + 'onConnectionClosed')):
        counted.reset()
        counted.no_inline = stop('updateObservedHeight', 'on_connection_synchronized', 'recalculateMaxObservedHeight')
        c.run(counted, f)
        for (fid, line), path in sorted(counted.sites.items()):
            g = F.fns[fid]
            w = 'the count changes together with the mark of the connection'
            if path is None:
                c.ok('R6', w, '%s in %s' % (g.loc(line), g.qn))
            else:
                c.bad('R6', w, '%s in %s' % (g.loc(line), g.qn), path, construct='count in ' + f.qn)
        if not counted.changes:
            c.bad('R6', 'the peer count follows the connections', '%s in %s' % (f.loc(), f.qn), construct='no count in ' + f.qn)
    fc = F.q1(PH + 'onConnectionClosed')
    c.gates('R6', fc, KP, {'was': 'the connection was counted'}, br={'was': lambda a, p, ev: flag(a, p, cf) == 1}, targets=[('count down', down, {'was'})], no_inline=stop('recalculateMaxObservedHeight'), min_sites=1)
    follow(c, 'R6', 'a counted connection that closes is taken off the count', fc, KP, None, trig_br=lambda a, p, ev: flag(a, p, cf) == 1, done=down, no_inline=stop('recalculateMaxObservedHeight'))
    for f in F.fns.values():
        if not f.rel().startswith('src/') or f.kind in ('ctor', 'dtor') or PH + 'm_peersCount' not in f.names:
            continue
        if f.qn in (fp.qn, fc.qn) or only_called_from(F, f, {fp.qn, fc.qn}):
            continue
        got = Calls(E, {PH + 'm_peersCount'}, (), lambda ev: up(ev) or down(ev), max_depth=0)
        c.run(got, f)
        c.check(not got.hits, 'R6', 'nothing else changes the peer count', '%s in %s' % (f.loc(), f.qn), construct='count in ' + f.qn)

    # R7
    c.gates('R7', fn, K | {FULL['append_with_peer_white'], FULL['try_ping']}, {'ping': 'the ping back succeeded', 'self': T['self']}, br={'ping': lambda a, p, ev: truth_of(a, p, 'try_ping') == 1, 'self': G['self']},
            targets=[('peer listed', calls('append_with_peer_white', 'set_peer_just_seen'), {'ping', 'self'})], no_inline=stop('process_payload_sync_data', 'try_ping', 'append_with_peer_white'))
    adr = Listed(E, m)
    adr.no_inline = stop('process_payload_sync_data', 'try_ping', 'append_with_peer_white')
    c.run(adr, fn)
    for w, (ok, where) in sorted(adr.got.items()):
        c.check(ok, 'R7', 'the entry listed after the ping holds %s' % w, where, construct='%s in %s' % (w, fn.qn))
    for w in ('the address of the connection', 'the announced port', 'the announced peer id'):
        if w not in adr.got:
            c.bad('R7', 'the entry listed after the ping holds ' + w, '%s in %s' % (fn.loc(), fn.qn), construct='%s in %s' % (w, fn.qn))
    tp = F.q1(NS + 'try_ping')
    c.gates('R7', tp, K | {FULL['is_ip_allowed']}, {'port': 'a port was announced', 'ip': 'the address is allowed', 'status': 'the answer is the ping status', 'id': 'the answer names the same peer id'},
            br={'port': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'my_port')) == 1, 'ip': lambda a, p, ev: truth_of(a, p, 'is_ip_allowed') == 1,
                'status': lambda a, p, ev: eq(a, p, lambda t: isf(t, 'status'), anyt), 'id': lambda a, p, ev: eq(a, p, lambda t: isf(t, 'peer_id') and m.fld(t, 'node_data') or isf(t, 'peer_id') and m.param(t), lambda t: isf(t, 'peer_id'))},
            exits=lambda k, r: {'port', 'ip', 'status', 'id'} if succ(k, r) else None, no_inline=stop('is_ip_allowed'), exc='try')


class Counted(Rule):
    """the mark of a connection and the counter change together"""

    def __init__(self, E, keys, cf, up, down, m):
        self.E, self.keys, self.cf, self.up, self.down = E, keys, cf, up, down
        self.init = (0, 0)
        self.no_inline = ()
        self.reset()

    def reset(self):
        self.sites, self.changes = {}, 0

    def event(self, f, ev, st):
        n, k = f
        if self.up(ev):
            self.changes = 1
            return (min(n + 1, 2), k)
        if self.down(ev):
            self.changes = 1
            return (max(n - 1, -2), k)
        if ev.kind == 'write' and self.cf(ev.lhs):
            return (n, 1 if ev.rhs == TRUE else -1 if ev.rhs == FALSE else 9)
        return f

    def leave(self, f, kind, ret, ev, st):
        if kind != 'ret':
            return
        k = (ev.fn.id, ev.line)
        self.sites.setdefault(k, None)
        if f[0] != f[1]:
            self.sites[k] = self.E.path(st) or ['entry']


class Listed(Rule):
    """what the list entry contains when it is added"""
    init = 0

    def __init__(self, E, m):
        self.E, self.m = E, m
        self.keys = {'append_with_peer_white', 'cn::PeerlistEntry::adr', 'cn::PeerlistEntry::id'}
        self.reset()

    def reset(self):
        self.got = {}

    def event(self, f, ev, st):
        if ev.kind == 'write' and ev.lhs[0] == 'fld' and self.final:
            l = last(ev.lhs[2])
            where = '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn)
            if 'PeerlistEntry' in ev.lhs[2] and l == 'id':
                self.add('the announced peer id', isf(ev.rhs, 'peer_id'), where)
            elif 'NetworkAddress' in ev.lhs[2] and l == 'ip':
                self.add('the address of the connection', isf(ev.rhs, 'm_remote_ip'), where)
            elif 'NetworkAddress' in ev.lhs[2] and l == 'port':
                self.add('the announced port', isf(ev.rhs, 'my_port'), where)
        return f

    def add(self, w, ok, where):
        o = self.got.get(w)
        self.got[w] = (ok and (o is None or o[0]), where if o is None or o[0] else o[1])
