"""Peer lists: what enters them, how large they get, what is handed out and whom we connect to."""
from .common import *

PM = 'cn::PeerlistManager::'
NS = 'cn::NodeServer::'

META = dict(
    title='Peer lists stay bounded, allowed and reachable-first, and lead to new peers only',
    statement='An address enters a peer list only if it is allowed (never loopback, private only when configured), a list never holds more than its limit and drops the longest unseen entry first, and no address is both in the white and in the gray list. An address becomes white only after the node itself reached it (or it was configured), whereas what a peer reports only becomes gray, never dated later than our own clock; a peer is told at most the handshake limit of white entries that were seen, newest first. The node opens an outgoing connection from its lists only to a peer that is not itself and not connected already, and only while it has fewer than the wanted number.',
    over=['inputs', 'histories'],
    qtext='every sequence of handshakes, timed syncs and peer lists received, with any clocks and addresses in them',
    why='Poisoned or unbounded peer lists let an attacker isolate a node; tests insert a few well-formed entries.',
    files=['src/P2p/PeerListManager.cpp', 'src/P2p/NetNode.cpp', 'src/System/Ipv4Address.cpp'],
    mechanism=[('list updates', 'PeerlistManager::append_with_peer_white, append_with_peer_gray, append_with_peer_anchor, Peerlist::trim'), ('address filter', 'PeerlistManager::is_ip_allowed, Ipv4Address::isLoopback, isPrivate'), ('received lists', 'NodeServer::handle_remote_peerlist, fix_time_delta'), ('choice of peers', 'NodeServer::connections_maker, make_new_connection_from_peerlist, is_peer_used')],
    state=[('white list', 'addresses the node reached', 'PeerlistManager::m_peers_white'), ('gray list', 'addresses it heard of', 'PeerlistManager::m_peers_gray'), ('anchor list', 'its outgoing connections', 'PeerlistManager::m_peers_anchor')],
    observe=['peer lists handed to others', 'outgoing connections'],
    technique='path-sensitive gate and follow-up analysis over the CFG, with a closed list of the functions that promote an address',
    level_note='Decides the steps on every path; the order inside a list is that of the container, which is trusted.',
)
MIN = 28
EXPLAIN = 'Every CFG path of the functions that read or change the peer lists or choose a peer; obligations are one per update and required test, one per exit and one per function that promotes an address.'

LISTS = ('m_peers_white', 'm_peers_gray', 'm_peers_anchor')
ADD = ('insert', 'emplace', 'push_back')
UPD = ('replace', 'modify')
DEL = ('erase', 'clear')
LIM = {'m_peers_white': 'P2P_LOCAL_WHITE_PEERLIST_LIMIT', 'm_peers_gray': 'P2P_LOCAL_GRAY_PEERLIST_LIMIT'}
PRIV = {(0xff000000, 10 << 24), (0xfff00000, (172 << 24) | (16 << 16)), (0xffff0000, (192 << 24) | (168 << 16))}
LOOP = {(0xff000000, 127 << 24)}


def own(t, lst):
    """the term is the list or one of its indices"""
    t = strip(t)
    while t[0] == 'call' and t[2] is not None:
        t = strip(t[2])
    return isf(t, lst)


def of(ev, m, lst, names):
    return ev.kind == 'call' and ev.name in names and ev.obj is not None and own(ev.obj, lst)


def gone(m, lst):
    """the outcome says that the address is not in the list"""
    return lambda a, p, ev: absent(a, p, lambda t: m.fld(t, lst))


def there(m, lst):
    return lambda a, p, ev: (lambda t: p == 1 and t[0] == 'in' and m.fld(t[1], lst))(stripc(a)) or ne(a, p, lambda t: isc(t, 'find') and m.fld(t, lst), lambda t: isc(t, 'end') and m.fld(t, lst)) or truth_of(a, p, 'count') == 1 and m.fld(a, lst)


def fold(t):
    """integer value of a constant term"""
    t = strip(t)
    k = const_of(t)
    if k is not None:
        return k
    if t[0] in ('op', 'bin') and len(t) == 4:
        a, b = fold(t[2]), fold(t[3])
        if a is None or b is None:
            return None
        return {'<<': a << b if 0 <= b < 64 else None, '|': a | b, '&': a & b, '+': a + b, '-': a - b, '*': a * b}.get(t[1])
    return None


def ranges(t, out):
    """(mask, value) pairs of the comparisons in the term; None in the set if one of them is of another form"""
    for x in subterms(t):
        if x[0] == 'cmp':
            got = None
            for u, v in ((x[2], x[3]), (x[3], x[2])):
                k, u = fold(v), strip(u)
                if k is not None and u[0] in ('op', 'bin') and len(u) == 4 and u[1] == '&':
                    ms = [fold(y) for y in u[2:] if fold(y) is not None]
                    if len(ms) == 1 and x[1] in ('==', '!='):
                        got = (ms[0] & 0xffffffff, k & 0xffffffff)
            out.add(got)


class Cmps(Rule):
    init = 0

    def __init__(self, E):
        self.E, self.keys = E, None
        self.reset()

    def reset(self):
        self.out = set()

    def branch(self, f, a, p, ev):
        if self.final:
            ranges(a, self.out)
        return f

    def leave(self, f, kind, ret, ev, st):
        if self.final and ret is not None:
            ranges(ret, self.out)


class Hits(Rule):
    """events that satisfy a predicate, once per site"""
    init = 0

    def __init__(self, E, keys, pred, no_inline=(), max_depth=4):
        self.E, self.keys, self.pred, self.no_inline, self.max_depth = E, keys, pred, no_inline, max_depth
        self.reset()

    def reset(self):
        self.hits, self._s = [], set()

    def event(self, f, ev, st):
        k = (ev.fn.id, ev.line, str(ev.lhs) if ev.kind == 'write' else str(ev.term))
        if self.final and self.pred(ev) and k not in self._s:
            self._s.add(k)
            self.hits.append(ev)
        return f


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'an address is entered in a list only if it is allowed, in the gray list only if it is not white; known addresses are refreshed')
    c.rule('R2', 'an address that is entered in the white list leaves the gray list')
    c.rule('R3', 'every insertion is followed by trimming, which stops only within the limit and drops the oldest entry; the limits belong to the lists')
    c.rule('R4', 'loopback addresses are never allowed, private ones only when configured, by their address ranges')
    c.rule('R5', 'a list received from a peer is merged, into the gray list only, after its times were checked and brought to our clock')
    c.rule('R6', 'a peer is told only white entries that were seen, newest first, and no more than the limit')
    c.rule('R7', 'an address becomes white only after the node reached it itself or it was configured')
    c.rule('R8', 'an outgoing connection is opened only to a peer that is not us and not in use, while fewer than wanted are open')
    c.rule('R9', 'an anchor is dropped when its connection closes, and all anchors are handed out before the list is emptied')
    c.rule('R10', 'all three lists are saved and restored')
    allowed = lambda a, p, ev: truth_of(a, p, 'is_ip_allowed') == 1
    refused = lambda a, p, ev: truth_of(a, p, 'is_ip_allowed') == 0
    FLD = {PM + x for x in LISTS}
    KEY = FLD | {PM + 'is_ip_allowed', PM + 'Peerlist::m_peers'}
    NI = (PM + 'is_ip_allowed', PM + 'Peerlist::trim')
    holders = {}
    for f in F.q(PM + 'PeerlistManager'):
        h = Hits(E, {'__none__'}, lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and any(isc(ev.rhs, 'Peerlist') or 'PeerlistManager::Peerlist' in str(x) for x in (ev.rhs,)))
        c.run(h, f)
        for ev in h.hits:
            for lst in LIM:
                if m.fld(ev.rhs, lst):
                    holders.setdefault(lst, set()).add(last(ev.lhs[2]))
    # R1, R2
    for q, lst in (('append_with_peer_white', LISTS[0]), ('append_with_peer_gray', LISTS[1]), ('append_with_peer_anchor', LISTS[2])):
        for f in F.q(PM + q):
            br = {'allowed': allowed}
            need = {'allowed'}
            put = lambda ev, lst=lst: of(ev, m, lst, ADD + UPD)
            if lst == LISTS[1]:
                br['notwhite'] = gone(m, LISTS[0])
                need.add('notwhite')
            c.gates('R1', f, KEY, {'allowed': 'the address is allowed', 'notwhite': 'the address is not in the white list'}, br=br, targets=[('entry put into ' + lst, put, need)], no_inline=NI, min_sites=1, exc='try')
            dealt = [refused] + ([there(m, LISTS[0])] if lst == LISTS[1] else []) + ([there(m, lst)] if lst == LISTS[2] else [])
            c.gates('R1', f, KEY, {'dealt': 'an allowed address is entered or refreshed'}, br={'dealt': lambda a, p, ev, dealt=dealt: any(d(a, p, ev) for d in dealt)}, ev={'dealt': put}, exits=lambda k, r: {'dealt'} if k == 'ret' and r != FALSE else None, no_inline=NI, min_sites=1)
            if lst == LISTS[0]:
                c.gates('R2', f, KEY, {'out': 'the address is not or no longer in the gray list'}, br={'out': lambda a, p, ev: refused(a, p, ev) or gone(m, LISTS[1])(a, p, ev)}, ev={'out': lambda ev: of(ev, m, LISTS[1], DEL)}, exits=lambda k, r: {'out'} if k == 'ret' and r != FALSE else None, no_inline=NI, min_sites=1)
            if lst != LISTS[2]:
                follow(c, 'R3', 'the list is trimmed after an insertion', f, KEY | {PM + 'Peerlist::trim'}, lambda ev, lst=lst: of(ev, m, lst, ADD), done=calls(PM + 'Peerlist::trim', obj=lambda t, lst=lst: isf(t, *holders.get(lst, ())) or not isf(t, *(x for v in holders.values() for x in v))), done_br=lambda a, p, ev: leq(a, p, lambda t: (t[0] == 'size' or isc(t, 'size', 'count')), lambda t: isf(t, 'm_maxSize') or any(m.glob(t, x) for x in LIM.values())), no_inline=NI)
    # nothing else adds to the lists
    app = {PM + x for x in ('append_with_peer_white', 'append_with_peer_gray', 'append_with_peer_anchor', 'serialize')}
    for f in list(F.fns.values()):
        if not FLD & f.names or not f.rel().startswith('src/') or f.qn in app or only_called_from(F, f, app):
            continue
        h = Hits(E, {'__none__'}, lambda ev: ev.kind == 'call' and ev.name in ADD + UPD and ev.obj is not None and any(own(ev.obj, x) for x in LISTS))
        c.run(h, f)
        c.check(not h.hits, 'R1', 'entries are put into the lists by the append functions only', '%s in %s' % (f.loc(), f.qn), construct='insertion in ' + f.qn)
    # R3
    size = lambda t: (t[0] == 'size' or isc(t, 'size', 'count')) and m.fld(t, 'm_peers')
    ft = F.q1(PM + 'Peerlist::trim')
    KT = {PM + 'Peerlist::m_peers', PM + 'Peerlist::m_maxSize'}
    c.gates('R3', ft, KT, {'within': 'trimming ends only when the list is within its limit'}, br={'within': lambda a, p, ev: leq(a, p, size, lambda t: isf(t, 'm_maxSize'))}, exits=lambda k, r: {'within'} if k == 'ret' else None, min_sites=1)
    h = Hits(E, KT, lambda ev: of(ev, m, 'm_peers', DEL + ('pop_back', 'pop_front')))
    c.run(h, ft)
    for ev in h.hits:
        back = ev.name in ('clear', 'pop_back') or any(isc(x, 'rbegin', 'end', 'prev') for a in ev.args for x in subterms(a))
        c.check(not back, 'R3', 'trimming drops the entry at the old end', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='entry dropped in ' + ft.qn)
    if not h.hits:
        c.bad('R3', 'trimming drops entries', '%s in %s' % (ft.loc(), ft.qn), construct='entry dropped in ' + ft.qn)
    for f in F.q(PM + 'PeerlistManager'):
        h = Hits(E, {'__none__'}, lambda ev: ev.kind == 'ctor' and 'PeerlistManager::Peerlist' in str(ev.term[1]) and len(ev.args) >= 2)
        c.run(h, f)
        for ev in h.hits:
            lst = [x for x in LIM if m.fld(ev.args[0], x)]
            if lst:
                lim = [x for x in LIM.values() if m.glob(ev.args[1], x)]
                c.check(not lim or lim == [LIM[lst[0]]], 'R3', 'the limit belongs to the list', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='limit of ' + lst[0])
    # R4
    fa = F.q1(PM + 'is_ip_allowed')
    KA = {'platform_system::Ipv4Address::isLoopback', 'platform_system::Ipv4Address::isPrivate', PM + 'm_allow_local_ip'}
    NA = ('platform_system::Ipv4Address::isLoopback', 'platform_system::Ipv4Address::isPrivate')
    c.gates('R4', fa, KA, {'loop': 'the address is not a loopback address', 'private': 'the address is not private, or private ones are configured'},
            br={'loop': lambda a, p, ev: truth_of(a, p, 'isLoopback') == 0, 'private': lambda a, p, ev: truth_of(a, p, 'isPrivate') == 0 or flag(a, p, lambda t: isf(t, 'm_allow_local_ip')) == 1},
            exits=lambda k, r: {'loop', 'private'} if k == 'ret' and r == TRUE else {'loop'} if k == 'ret' and r != FALSE else None, no_inline=NA, min_sites=1)
    h = Hits(E, {'networkToHost', 'cn::networkToHost'}, lambda ev: ev.kind == 'ctor' and 'Ipv4Address' in str(ev.term[1]) and len(ev.args) == 1)
    c.run(h, fa)
    for ev in h.hits:
        c.check(m.call(ev.args[0], 'networkToHost') or any(x[0] in ('op', 'bin') for x in subterms(ev.args[0])), 'R4', 'the address is converted from network byte order before it is classified', '%s in %s' % (ev.fn.loc(ev.line), fa.qn), construct='byte order in ' + fa.qn)
    for qn, want in (('isLoopback', LOOP), ('isPrivate', PRIV)):
        f = F.q1('platform_system::Ipv4Address::' + qn)
        r = Cmps(E)
        c.run(r, f)
        if None not in r.out and r.out:
            c.check(r.out == want, 'R4', 'the address ranges are those of the address class', '%s in %s' % (f.loc(), f.qn), construct='ranges of ' + f.qn)
    fi = F.q1(PM + 'init')
    h = Hits(E, {'__none__'}, lambda ev: writes('m_allow_local_ip')(ev))
    c.run(h, fi)
    for ev in h.hits:
        c.check(strip(ev.rhs)[0] == 'param', 'R4', 'private addresses are allowed as configured', '%s in %s' % (ev.fn.loc(ev.line), fi.qn), construct='configuration in ' + fi.qn)
    h = Hits(E, {'__none__'}, calls(PM + 'init'))
    f = F.q1(NS + 'init')
    c.run(h, f)
    for ev in h.hits:
        c.check(not ev.args or m.fld(ev.args[0], 'm_allow_local_ip'), 'R4', 'private addresses are allowed as configured', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='configuration in ' + f.qn)
    # R5
    seen = lambda t: isf(t, 'last_seen')
    fr = F.q1(NS + 'handle_remote_peerlist')
    merge = calls(PM + 'merge_peerlist', PM + 'append_with_peer_gray')
    fixed = lambda a, p, ev: truth_of(a, p, 'fix_time_delta') == 1
    NR = (NS + 'fix_time_delta', PM + 'merge_peerlist')
    c.gates('R5', fr, {NS + 'fix_time_delta', PM + 'merge_peerlist', PM + 'append_with_peer_gray'}, {'fixed': 'the times in the list were checked and corrected'}, br={'fixed': fixed}, targets=[('received list merged', merge, {'fixed'})], no_inline=NR, min_sites=1)
    c.gates('R5', fr, {NS + 'fix_time_delta', PM + 'merge_peerlist', PM + 'append_with_peer_gray'}, {'merged': 'a list whose times are right is merged'}, ev={'merged': merge}, exits=lambda k, r: {'merged'} if k == 'ret' and r != FALSE else None, no_inline=NR, min_sites=1)
    fd = F.q1(NS + 'fix_time_delta')
    KD = {'cn::PeerlistEntry::last_seen'}
    clock = lambda t: isc(t, 'time') or t[0] == 'out' and 'time' in str(t[1]) or 'time#' in show(t) or isc(t, 'now')
    remote = lambda t: strip(t)[0] == 'param'
    age = lambda t: any(k != 1 for k in lin(t)) and m.fld(t, 'last_seen')
    entries(c, fd, KD, clock, remote, age)
    fm = F.q1(PM + 'merge_peerlist')
    h = Hits(E, {PM + 'append_with_peer_gray', PM + 'append_with_peer_white'}, calls(PM + 'append_with_peer_gray', PM + 'append_with_peer_white'), no_inline=(PM + 'append_with_peer_gray', PM + 'append_with_peer_white'))
    c.run(h, fm)
    c.check(h.hits and all(ev.name == 'append_with_peer_gray' for ev in h.hits), 'R5', 'reported addresses go to the gray list', '%s in %s' % (fm.loc(), fm.qn), construct='list in ' + fm.qn)
    # R6
    for f in F.q(PM + 'get_peerlist_head'):
        out = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'push_front') and ev.obj is not None and strip(ev.obj)[0] == 'param'
        c.gates('R6', f, {PM + 'm_peers_white'}, {'seen': 'the entry was seen', 'below': 'fewer than the limit were taken'},
                br={'seen': lambda a, p, ev: flag(a, p, seen) == 1, 'below': lambda a, p, ev: lt(a, p, lambda t: not m.param(t), m.param)},
                ev={}, kills={'seen': out, 'below': out}, targets=[('entry handed out', out, {'seen', 'below'})], min_sites=1)
        h = Hits(E, None, out)
        c.run(h, f)
        for ev in h.hits:
            lst = [x for x in LISTS if any(m.fld(a, x) for a in ev.args)]
            c.check(not lst or lst == ['m_peers_white'], 'R6', 'white entries are handed out', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='list in ' + f.qn)
            names = {last(x[1]) for a in ev.args for x in subterms(a) if x[0] == 'call'}
            c.check(not names & {'begin', 'front'} or bool(names & {'rbegin', 'rderef'}), 'R6', 'newest entries are handed out first', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='order in ' + f.qn)
    fg = F.q1(PM + 'Peerlist::get')
    c.gates('R6', fg, KT, {'inside': 'the index is inside the list'}, br={'inside': lambda a, p, ev: lt(a, p, m.param, size)}, exits=lambda k, r: {'inside'} if k == 'ret' and r != FALSE else None, min_sites=1)
    # R7
    promote = calls(PM + 'append_with_peer_white', PM + 'set_peer_just_seen')
    SAFE = {
        NS + 'handle_handshake': ('it answered a ping', lambda a, p, ev: truth_of(a, p, 'try_ping') == 1),
        NS + 'handshake': ('it answered the handshake', lambda a, p, ev: truth_of(a, p, 'invoke') == 1),
        NS + 'try_to_connect_and_handshake_with_new_peer': ('the handshake succeeded', lambda a, p, ev: truth_of(a, p, 'get') == 1),
        NS + 'handleTimedSyncResponse': ('we opened the connection', lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_is_income')) == 0),
    }
    NP = (NS + 'handshake', PM + 'append_with_peer_white', PM + 'set_peer_just_seen', NS + 'try_ping', NS + 'handle_remote_peerlist', 'cn::LevinProtocol::invoke')
    for q, (text, pred) in sorted(SAFE.items()):
        for f in F.q(q):
            c.gates('R7', f, {PM + 'append_with_peer_white', PM + 'set_peer_just_seen', 'm_is_income'}, {'reached': text}, br={'reached': pred}, targets=[('address promoted', promote, {'reached'})], no_inline=NP, min_sites=1)
    h = Hits(E, {PM + 'append_with_peer_white'}, calls(PM + 'append_with_peer_white'), no_inline=NP)
    c.run(h, F.q1(NS + 'init'))
    for ev in h.hits:
        c.check(any(m.fld(a, 'm_command_line_peers') for a in ev.args), 'R7', 'at start only configured peers are promoted', '%s in %s' % (ev.fn.loc(ev.line), NS + 'init'), construct='promotion in %sinit' % NS)
    good = ('m_remote_ip', 'm_remote_port', 'my_port', 'ip', 'port', 'adr')
    for q in sorted(SAFE) + [PM + 'set_peer_just_seen']:
        for f in F.q(q):
            h = Hits(E, {PM + 'append_with_peer_white', PM + 'set_peer_just_seen', 'cn::PeerlistEntry::adr', 'cn::NetworkAddress::ip', 'cn::NetworkAddress::port'}, lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and ev.lhs[2] in ('cn::PeerlistEntry::adr', 'cn::AnchorPeerlistEntry::adr', 'cn::NetworkAddress::ip', 'cn::NetworkAddress::port'), no_inline=NP)
            c.run(h, f)
            for ev in h.hits:
                x = strip(ev.rhs)
                odd = x[0] in ('op', 'bin') and not noff(x) or x[0] == 'fld' and last(x[2]) not in good or const_of(x) is not None
                c.check(not odd, 'R7', 'the address noted is the one that was reached', '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='address in ' + f.qn)
    ok = set(SAFE) | {NS + 'init', PM + 'set_peer_just_seen'}
    for f in list(F.fns.values()):
        if f.rel().startswith('src/') and {PM + 'append_with_peer_white', PM + 'set_peer_just_seen'} & f.names and not f.qn.startswith('cn::P2pNode'):
            c.check(f.qn in ok or any(f.id.startswith(g.id + '::$lambda') for q in ok for g in F.q(q)) or only_called_from(F, f, ok), 'R7', 'an address is promoted only where it was reached', '%s in %s' % (f.loc(), f.qn), construct='promotion in ' + f.qn)
    # R8
    conn = calls(NS + 'try_to_connect_and_handshake_with_new_peer')
    unused = lambda a, p, ev: truth_of(a, p, 'is_peer_used') == 0
    NC = (NS + 'try_to_connect_and_handshake_with_new_peer', NS + 'is_peer_used', NS + 'is_addr_connected', NS + 'make_new_connection_from_peerlist', NS + 'make_new_connection_from_anchor_peerlist', NS + 'get_outgoing_connections_count')
    KC = {NS + 'try_to_connect_and_handshake_with_new_peer', NS + 'is_peer_used', NS + 'is_addr_connected'}
    for q in ('make_new_connection_from_peerlist', 'make_new_connection_from_anchor_peerlist'):
        f = F.q1(NS + q)
        c.gates('R8', f, KC, {'unused': 'the peer is not us and not connected'}, br={'unused': unused}, kills={'unused': conn}, targets=[('connection opened', conn, {'unused'})], no_inline=NC, min_sites=1)
        c.gates('R8', f, KC, {'made': 'success is reported only when a connection was made'}, br={'made': lambda a, p, ev: truth_of(a, p, 'try_to_connect_and_handshake_with_new_peer') == 1}, exits=lambda k, r: {'made'} if k == 'ret' and r == TRUE else None, no_inline=NC, min_sites=1)
    f = F.q1(NS + 'connect_to_peerlist')
    c.gates('R8', f, KC, {'unused': 'the address is not connected'}, br={'unused': lambda a, p, ev: truth_of(a, p, 'is_addr_connected') == 0 or unused(a, p, ev)}, kills={'unused': conn}, targets=[('connection opened', conn, {'unused'})], no_inline=NC, min_sites=1)
    f = F.q1(NS + 'make_expected_connections_count')
    make = calls(NS + 'make_new_connection_from_peerlist', NS + 'make_new_connection_from_anchor_peerlist')
    count = lambda t: t[0] == 'phi' or isc(t, 'get_outgoing_connections_count') or t[0] == 'var'
    c.gates('R8', f, KC | {NS + 'make_new_connection_from_peerlist', NS + 'make_new_connection_from_anchor_peerlist', NS + 'm_stopEvent'}, {'fewer': 'fewer than the wanted number of connections are open', 'run': 'the node is not stopping'},
            br={'fewer': lambda a, p, ev: lt(a, p, count, m.param), 'run': lambda a, p, ev: truth_of(a, p, 'get') == 0 and m.fld(a, 'm_stopEvent')}, kills={'fewer': lambda ev: ev.kind == 'write' and ev.lhs[0] == 'var' and m.call(ev.rhs, 'get_outgoing_connections_count')},
            targets=[('connection attempted', make, {'fewer', 'run'})], no_inline=NC, min_sites=1)
    follow(c, 'R8', 'the open connections are counted again after one was made', f, KC | {NS + 'make_new_connection_from_peerlist', NS + 'make_new_connection_from_anchor_peerlist', NS + 'get_outgoing_connections_count'}, make, done=calls(NS + 'get_outgoing_connections_count'), exits=lambda k, r: False, no_inline=NC)
    f = F.q1(NS + 'get_outgoing_connections_count')
    inc = lambda ev: ev.kind == 'write' and ev.lhs[0] in ('var', 'obj') and ev.op in ('++', '+=')
    outg = lambda t: isf(t, 'm_is_income')
    follow(c, 'R8', 'an outgoing connection is counted', f, None, None, done=inc, trig_br=lambda a, p, ev: flag(a, p, outg) == 0, min_trigs=0)
    if Hit(E, f, inc, c):
        c.gates('R8', f, None, {'out': 'only outgoing connections are counted'}, br={'out': lambda a, p, ev: flag(a, p, outg) == 0}, kills={'out': inc}, targets=[('connection counted', inc, {'out'})], min_sites=0)
    used(c)
    # R9
    f = F.q1(NS + 'on_connection_close')
    drop = calls(PM + 'remove_from_peer_anchor')
    c.gates('R9', f, {PM + 'remove_from_peer_anchor', 'm_is_income', NS + 'm_stopEvent'}, {'dropped': 'the anchor of a closed outgoing connection is dropped'}, br={'dropped': lambda a, p, ev: truth_of(a, p, 'get') == 1 and m.fld(a, 'm_stopEvent') or flag(a, p, lambda t: isf(t, 'm_is_income')) == 1 or flag(a, p, lambda t: isf(t, 'm_stop')) == 1}, ev={'dropped': drop}, exits=lambda k, r: {'dropped'} if k == 'ret' else None, no_inline=(PM + 'remove_from_peer_anchor', 'cn::CryptoNoteProtocolHandler::onConnectionClosed'), min_sites=1)
    c.gates('R9', f, {PM + 'remove_from_peer_anchor', 'm_is_income', NS + 'm_stopEvent'}, {'running': 'the node is not stopping (anchors outlive a restart)'}, br={'running': lambda a, p, ev: truth_of(a, p, 'get') == 0 and m.fld(a, 'm_stopEvent') or flag(a, p, lambda t: isf(t, 'm_stop')) == 0}, targets=[('anchor dropped', drop, {'running'})], no_inline=(PM + 'remove_from_peer_anchor', 'cn::CryptoNoteProtocolHandler::onConnectionClosed'), min_sites=1)
    f = F.q1(PM + 'remove_from_peer_anchor')
    c.gates('R9', f, FLD, {'out': 'the address is not or no longer an anchor'}, br={'out': gone(m, LISTS[2])}, ev={'out': lambda ev: of(ev, m, LISTS[2], DEL)}, exits=lambda k, r: {'out'} if k == 'ret' and r != FALSE else None, min_sites=1)
    f = F.q1(PM + 'get_and_empty_anchor_peerlist')
    took = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'assign', 'copy') and not of(ev, m, LISTS[2], ADD) or ev.kind == 'write' and 'param' in str(ev.lhs[0])
    h = Hits(E, None, took)
    c.run(h, f)
    c.check(bool(h.hits), 'R9', 'the anchors are handed out', '%s in %s' % (f.loc(), f.qn), construct='anchors handed out in ' + f.qn)
    emptied = lambda ev: of(ev, m, LISTS[2], DEL + ('swap',))
    c.gates('R9', f, FLD, {'emptied': 'the list is emptied'}, ev={'emptied': emptied}, exits=lambda k, r: {'emptied'} if k == 'ret' and r != FALSE else None, min_sites=1)
    # R10
    f = F.q1(PM + 'serialize')
    for lst in LISTS:
        h = Hits(E, {'__none__'}, lambda ev, lst=lst: ev.kind == 'call' and any(m.fld(a, lst) for a in ev.args))
        c.run(h, f)
        c.check(bool(h.hits), 'R10', 'the list is saved and restored', '%s in %s' % (f.loc(), f.qn), construct='%s in %s' % (lst, f.qn))


def Hit(E, f, pred, c):
    h = Hits(E, {'__none__'}, pred)
    c.run(h, f)
    return h.hits


class Fixed(Rule):
    """for each entry of a received list: what was known when its time was replaced, and whether it was"""
    init = frozenset()

    def __init__(self, E, keys, clock, remote, age):
        self.E, self.keys, self.clock, self.remote, self.age = E, keys, clock, remote, age
        self.reset()

    def reset(self):
        self.sites, self.wrong = {}, None

    def branch(self, f, a, p, ev):
        s = lambda t: isf(t, 'last_seen')
        if leq(a, p, s, self.remote):
            f = f | {'past'}
        if leq(a, p, self.age, self.clock):
            f = f | {'ours'}
        return f

    def event(self, f, ev, st):
        if writes('last_seen')(ev):
            k = const_of(strip(ev.rhs)) is not None
            n = [v for t, v in lin(ev.rhs).items() if t != 1 and isf(t, 'last_seen')]
            if not k and n and n != [1] and ev.op == '=' or ev.op not in ('=', '+=', '-='):
                self.wrong = ev
            w = (ev.fn.id, ev.line)
            for g in ('past',) if k else ('past', 'ours'):
                old = self.sites.setdefault((w, g), None)
                if g not in f and old is None:
                    self.sites[(w, g)] = self.E.path(st) or ['entry']
            return frozenset()
        return f


def entries(c, fd, keys, clock, remote, age):
    r = Fixed(c.E, keys, clock, remote, age)
    c.run(r, fd)
    text = {'past': 'an entry later than the clock of the peer is refused', 'ours': 'a corrected time is not beyond our own clock'}
    if not r.sites:
        c.bad('R5', 'the times of a received list are corrected', '%s in %s' % (fd.loc(), fd.qn), construct='times in ' + fd.qn)
    c.check(r.wrong is None, 'R5', 'a corrected time keeps the age that the peer reported', '%s in %s' % (fd.loc(r.wrong.line if r.wrong else fd.line), fd.qn), construct='age in ' + fd.qn)
    for (w, g), path in sorted(r.sites.items()):
        f = c.F.fns[w[0]]
        if path is None:
            c.ok('R5', text[g], '%s in %s' % (f.loc(w[1]), f.qn))
        else:
            c.bad('R5', text[g], '%s in %s' % (f.loc(w[1]), f.qn), path, construct='%s in %s' % (g, f.qn))


def used(c):
    """is_peer_used says no only about others, and only after every connection was compared"""
    F, E, m = c.F, c.E, c.m
    me = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'm_peer_id'), lambda t: isf(t, 'id'))
    ids = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'peerId'), lambda t: isf(t, 'id'))
    adr = lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_is_income')) == 1 or ne(a, p, lambda t: isf(t, 'm_remote_ip'), lambda t: isf(t, 'ip')) or ne(a, p, lambda t: isf(t, 'm_remote_port'), lambda t: isf(t, 'port'))
    cons = lambda t: isf(t, 'm_connections')
    K = {NS + 'm_config', NS + 'm_connections'}
    for q in ('is_peer_used', 'is_addr_connected'):
        for f in F.q(NS + q):
            no = lambda k, r: k == 'ret' and r == FALSE
            if q == 'is_peer_used':
                c.gates('R8', f, K, {'me': 'a peer with our own id counts as used'}, br={'me': me}, exits=lambda k, r: {'me'} if no(k, r) else None, min_sites=1)
                c.each('R8', 'a connected peer id counts as used', f, K, cons, done_br=ids, exits=no)
            c.each('R8', 'the address of an outgoing connection counts as used', f, K, cons, done_br=adr, exits=no)
