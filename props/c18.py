"""Connections: framing, limits, timeouts, clean-up and the map they are kept in."""
from .common import *
from .c17 import Hits

NS = 'cn::NodeServer::'
CC = 'cn::P2pConnectionContext::'
LP = 'cn::LevinProtocol::'
PS = 'platform_system::'

META = dict(
    title='Peer connections are framed, bounded, timed out and always cleaned up',
    statement='A message is written and read whole, under a header with the right signature, length, command and kind, and every command that expects a reply gets exactly one. What is queued for a connection is bounded, a connection whose writes stall, and every connection attempt, handshake or ping that does not end in time, is interrupted. Every registered connection has a handler, which on every way out stops its writer, reports the closing and removes the entry, so that none outlives its connection; no walk over the connections is continued after other tasks could change them, and stopping ends and awaits all tasks.',
    over=['histories', 'schedules'],
    qtext='every message, every failure of the network and every interleaving of the connection tasks',
    why='A leaked or stalled connection exhausts the node and a stale one crashes it; tests do not make the network fail at each step.',
    files=['src/P2p/NetNode.cpp', 'src/P2p/LevinProtocol.cpp'],
    mechanism=[('connection task', 'NodeServer::connectionHandler'), ('write queue', 'P2pConnectionContext::pushMessage, popBuffer, NodeServer::writeHandler'), ('timeouts', 'NodeServer::timeoutLoop, try_to_connect_and_handshake_with_new_peer, try_ping'), ('framing', 'LevinProtocol::sendMessage, sendReply, readCommand, readStrict, writeStrict')],
    state=[('connections', 'the open connections by id', 'NodeServer::m_connections'), ('write queue', 'messages still to be written', 'P2pConnectionContext::writeQueue')],
    observe=['bytes on the wire', 'open connections', 'interrupted connections'],
    technique='path-sensitive gate and follow-up analysis over the CFG with exception edges, and an effect analysis (which functions may let other tasks run) over the call graph',
    level_note='Decides the order of the steps on every path; the dispatcher, timers and sockets are trusted.',
)
MIN = 22
EXPLAIN = 'Every CFG path of the connection tasks and of the framing; obligations are one per step of the clean-up and exit, one per network operation with its timeout, one per header field, and one per loop over the connections.'


def yields(F):
    """qualified names of the functions in which other tasks may run"""
    out = {f.id for f in F.fns.values() if f.qn in (PS + 'Dispatcher::dispatch', PS + 'Dispatcher::yield')}
    work = list(out)
    while work:
        for y in F.callers.get(work.pop(), ()):
            if y not in out and y in F.fns and 'contextProcedure' not in F.fns[y].qn:
                out.add(y)
                work.append(y)
    return {F.fns[x].qn for x in out} | {F.fns[x].id for x in out if '$lambda' in x}


class Walk(Rule):
    """a loop over a container is not continued after a call in which other tasks may run"""
    init = 0

    def __init__(self, E, cont, ys):
        self.E, self.keys, self.cont, self.ys = E, {'__none__'}, cont, ys
        self.reset()

    def reset(self):
        self.loops, self.bad = set(), None

    def event(self, f, ev, st):
        if ev.kind == 'call':
            if ev.name in ('begin', 'cbegin') and ev.obj is not None and self.cont(ev.obj):
                return 0
            if f == 1 and ev.qn in self.ys:
                return (ev.fn.id, ev.line)
        return f

    def branch(self, f, a, p, ev):
        r = loop_more(self.E, a, p, self.cont)
        if r is None:
            return f
        self.loops.add((ev.fn.id, ev.line))
        if isinstance(f, tuple) and self.final and r == 1:
            self.bad = f
        if isinstance(f, tuple):
            return f
        return r


def lams(t):
    return [x[1] for x in subterms(t) if x[0] in ('lam', 'lambda') and len(x) > 1 and isinstance(x[1], str)]


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'the connection task stops and awaits the writer, reports the closing and removes the connection, on every way out')
    c.rule('R2', 'every connection that is registered gets its task')
    c.rule('R3', 'connecting, handshaking and pinging are interrupted when they take too long')
    c.rule('R4', 'messages are queued only within the limit; a full queue interrupts the connection')
    c.rule('R5', 'a connection whose write takes too long is interrupted; the start of every write is noted')
    c.rule('R6', 'queued messages are sent as what they are; a failing write ends the connection')
    c.rule('R7', 'a message goes out under a complete header and whole, and is read whole or not at all')
    c.rule('R8', 'stopping interrupts and awaits all tasks, and is signalled to the protocol')
    c.rule('R9', 'no loop over the connections is continued after other tasks could have changed them')
    c.rule('R10', 'a command that expects a reply gets one, with an error code if nothing handled it')
    # R1
    fh = F.q1(NS + 'connectionHandler')
    task = [g for g in roots(F, NS + 'connectionHandler') if NS + 'on_connection_close' in g.names] or [fh]
    close = calls(NS + 'on_connection_close')
    erase = lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and isf(ev.obj, 'm_connections')
    ctxobj = lambda t: strip(t)[0] == 'obj' and 'platform_system::Context<' in str(strip(t)[2])
    stopw = lambda ev: ev.kind == 'call' and (ev.name == 'safeInterrupt' and any(ctxobj(a) for a in ev.args) or ev.name == 'interrupt' and ev.obj is not None and ctxobj(ev.obj)) or ev.kind == 'dtor' and PS + 'Context<' in str(ev.type)
    waitw = lambda ev: ev.kind == 'call' and ev.name in ('wait', 'get') and ev.obj is not None and ctxobj(ev.obj) or ev.kind == 'dtor' and PS + 'Context<' in str(ev.type)
    NIH = (NS + 'on_connection_close', NS + 'on_connection_new', NS + 'handleCommand', NS + 'safeInterrupt', CC + 'pushMessage', LP + 'readCommand')
    KH = {NS + 'on_connection_close', NS + 'on_connection_new', NS + 'm_connections', NS + 'safeInterrupt', PS + 'Context::wait', PS + 'Context::interrupt', 'm_state'}
    text = {'closed': 'the closing is reported', 'erased': 'the connection is removed', 'stopw': 'the writer is interrupted', 'waitw': 'the end of the writer is awaited'}
    for g in task:
        c.gates('R1', g, KH, text, ev={'closed': close, 'erased': erase, 'stopw': stopw, 'waitw': waitw}, br={'erased': lambda a, p, ev: eq(a, p, lambda t: isc(t, 'find') and 'm_connections' in str(t), lambda t: isc(t, 'end'))}, exits=lambda k, r: {'closed', 'erased', 'waitw'} if k == 'ret' else None,
                targets=[('writer awaited', waitw, {'stopw'}), ('connection removed', erase, {'waitw', 'closed'})], no_inline=NIH, exc='try', min_sites=3)
    # R2
    put = lambda ev: ev.kind == 'call' and ev.name in ('emplace', 'insert') and ev.obj is not None and isf(ev.obj, 'm_connections')
    run = lambda ev: ev.kind == 'call' and ev.name == 'spawn' and any('connectionHandler' in str(a) or 'lam' in str(a)[:8] for a in ev.args)
    n = 0
    for f in list(F.fns.values()):
        if NS + 'm_connections' in f.names and not only_called_from(F, f, {NS + 'acceptLoop', NS + 'try_to_connect_and_handshake_with_new_peer'}):
            h = Hits(E, {NS + 'm_connections'}, put, no_inline=(NS + 'try_to_connect_and_handshake_with_new_peer',))
            c.run(h, f)
            if h.hits:
                n += 1
                follow(c, 'R2', 'the registered connection gets its task', f, {NS + 'm_connections', NS + 'connectionHandler'}, put, done=run, no_inline=(NS + 'try_to_connect_and_handshake_with_new_peer', NS + 'handshake'))
    if not n:
        c.bad('R2', 'connections are registered', 'src/P2p/NetNode.cpp', construct='m_connections')
    # R3
    def lam_has(t, *names):
        return any(i in F.fns and all(any(last(x) in alt for x in F.fns[i].names | {F.fns[y].qn for y in F.fns[i].calls if y in F.fns}) for alt in names) for i in lams(t))
    for q in ('try_to_connect_and_handshake_with_new_peer', 'try_ping'):
        f = F.q1(NS + q)
        is_ctx = lambda ev: ev.kind == 'ctor' and str(ev.term[1]).startswith(PS + 'Context')
        timer = lambda ev: is_ctx(ev) and any(lam_has(a, ('sleep',), ('safeInterrupt', 'interrupt')) for a in ev.args)
        oper = lambda ev: is_ctx(ev) and not timer(ev)
        c.gates('R3', f, {PS + 'Context::get', PS + 'Context::wait'}, {'timed': 'the operation is waited for under a timeout'}, ev={'timed': timer}, kills={'timed': oper},
                targets=[('operation awaited', lambda ev: ev.kind == 'call' and ev.name in ('get', 'wait') and ev.obj is not None and ctxobj(ev.obj), {'timed'})], no_inline=(NS + 'connectionHandler',), min_sites=1)
    # R4
    f = F.q1(CC + 'pushMessage')
    q = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and isf(ev.obj, 'writeQueue')
    limit = lambda t: m.glob(t, 'P2P_CONNECTION_MAX_WRITE_BUFFER_SIZE')
    qsize = lambda t: m.fld(t, 'writeQueueSize')
    KP = {CC + 'writeQueue', CC + 'writeQueueSize', CC + 'interrupt'}
    c.gates('R4', f, KP, {'within': 'the queue stays within its limit', 'counted': 'the message is counted'}, br={'within': lambda a, p, ev: leq(a, p, qsize, limit)}, ev={'counted': lambda ev: writes('writeQueueSize')(ev) and (ev.op == '+=' or ev.op == '=' and m.fld(ev.rhs, 'writeQueueSize')) and m.call(ev.rhs, 'size')},
            targets=[('message queued', q, {'within', 'counted'})], no_inline=(CC + 'interrupt',), min_sites=1)
    c.gates('R4', f, KP, {'queued': 'the message is queued and the writer woken, or the connection interrupted'}, ev={'queued': lambda ev: ev.kind == 'call' and (ev.name == 'interrupt' or ev.name == 'set' and ev.obj is not None and isf(ev.obj, 'queueEvent'))}, exits=lambda k, r: {'queued'} if k == 'ret' else None, no_inline=(CC + 'interrupt',), min_sites=1)
    c.gates('R4', f, KP, {'in': 'success means that the message was queued'}, ev={'in': q}, exits=lambda k, r: {'in'} if k == 'ret' and r != FALSE else None, no_inline=(CC + 'interrupt',), min_sites=1)
    f = F.q1(CC + 'popBuffer')
    KB = {CC + 'writeQueue', CC + 'writeQueueSize', CC + 'writeOperationStartTime', CC + 'queueEvent', CC + 'stopped'}
    emptied = lambda ev: ev.kind == 'call' and ev.name in ('clear', 'swap') and (ev.obj is not None and isf(ev.obj, 'writeQueue') or any(isf(a, 'writeQueue') for a in ev.args))
    zero = lambda ev: writes('writeQueueSize')(ev) and const_of(strip(ev.rhs)) == 0
    c.gates('R4', f, KB, {'emptied': 'the messages handed out leave the queue', 'zero': 'the size of the queue starts anew', 'some': 'the queue holds something or the connection is stopped'},
            br={'some': lambda a, p, ev: p == 0 and (lambda t: t[0] in ('empty', 'call') and (t[0] == 'empty' and isf(t[1], 'writeQueue') or t[0] == 'call' and last(t[1]) == 'empty' and t[2] is not None and isf(t[2], 'writeQueue')))(stripc(a)) or flag(a, p, lambda t: isf(t, 'stopped')) == 1},
            ev={'emptied': emptied, 'zero': zero}, exits=lambda k, r: {'emptied', 'zero', 'some'} if k == 'ret' else None, min_sites=1)
    pause = lambda ev: ev.kind == 'call' and ev.name == 'wait' and ev.obj is not None and isf(ev.obj, 'queueEvent')
    c.gates('R4', f, KB, {'going': 'the connection is not stopped'}, br={'going': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'stopped')) == 0}, kills={'going': pause}, targets=[('waiting for messages', pause, {'going'})], min_sites=1)
    f = F.q1(CC + 'interrupt')
    c.gates('R4', f, {CC + 'stopped', CC + 'queueEvent', CC + 'context'}, {'stopped': 'the connection is marked as stopped', 'woken': 'its writer is woken', 'task': 'its task is interrupted'},
            ev={'stopped': lambda ev: writes('stopped')(ev) and ev.rhs == TRUE, 'woken': lambda ev: ev.kind == 'call' and ev.name == 'set' and ev.obj is not None and isf(ev.obj, 'queueEvent'), 'task': lambda ev: ev.kind == 'call' and ev.name == 'interrupt' and ev.obj is not None and isf(ev.obj, 'context')},
            exits=lambda k, r: {'stopped', 'woken', 'task'} if k == 'ret' else None, min_sites=1)
    # R5
    f = F.q1(CC + 'popBuffer')
    start = lambda ev: writes('writeOperationStartTime')(ev) and m.call(ev.rhs, 'now')
    wait = lambda ev: ev.kind == 'call' and ev.name == 'wait' and ev.obj is not None and isf(ev.obj, 'queueEvent')
    unset = lambda ev: writes('writeOperationStartTime')(ev) and not m.call(ev.rhs, 'now')
    c.gates('R5', f, KB, {'start': 'the start of the write is noted', 'idle': 'while idle no write is timed'}, ev={'start': start, 'idle': unset}, kills={'start': wait, 'idle': start}, targets=[('waiting for messages', wait, {'idle'})], exits=lambda k, r: {'start'} if k == 'ret' else None, min_sites=2)
    f = F.q1(NS + 'timeoutLoop')
    tl = lambda t: m.glob(t, 'P2P_DEFAULT_INVOKE_TIMEOUT')
    wd = lambda t: isc(t, 'writeDuration')
    stop = lambda ev: ev.kind == 'call' and ev.name in ('safeInterrupt', 'interrupt') and not (ev.args and ctxobj(ev.args[0]))
    KT = {NS + 'm_connections', CC + 'writeDuration'}
    c.each('R5', 'every connection whose write takes too long is interrupted', f, KT, lambda t: isf(t, 'm_connections'), done=stop, done_br=lambda a, p, ev: leq(a, p, wd, tl), exits=lambda k, r: False, no_inline=(NS + 'safeInterrupt', CC + 'interrupt', CC + 'writeDuration'))
    c.gates('R5', f, KT, {'late': 'its write takes too long'}, br={'late': lambda a, p, ev: lt(a, p, tl, wd) or le(a, p, tl, wd)}, targets=[('connection interrupted', stop, {'late'})], no_inline=(NS + 'safeInterrupt', CC + 'interrupt', CC + 'writeDuration'), min_sites=1)
    # R6
    f = F.q1(NS + 'writeHandler')
    KW = {LP + 'sendMessage', LP + 'sendReply', CC + 'popBuffer', 'cn::P2pMessage::type'}
    ty = lambda n: (lambda a, p, ev: is_enum(a, p, lambda t: isf(t, 'type'), n))
    send = lambda kind: (lambda ev: ev.kind == 'call' and ev.name == 'sendMessage' and len(ev.args) > 2 and ev.args[2] == kind)
    sent = calls(LP + 'sendMessage', LP + 'sendReply')
    asked = lambda t: is_enum(t, 1, lambda x: isf(x, 'type'), 'COMMAND') or is_enum(t, 0, lambda x: isf(x, 'type'), 'NOTIFY')
    NW = (LP + 'sendMessage', LP + 'sendReply', CC + 'popBuffer', NS + 'safeInterrupt', CC + 'interrupt')
    c.gates('R6', f, KW, {'cmd': 'it is a command', 'notify': 'it is a notification', 'reply': 'it is a reply'}, br={'cmd': ty('COMMAND'), 'notify': ty('NOTIFY'), 'reply': ty('REPLY')}, kills={x: sent for x in ('cmd', 'notify', 'reply')},
            targets=[('sent with reply', send(TRUE), {'cmd'}), ('sent without reply', send(FALSE), {'notify'}), ('sent as reply', calls(LP + 'sendReply'), {'reply'}), ('sent as message', lambda ev: ev.kind == 'call' and ev.name == 'sendMessage' and len(ev.args) > 2 and const_of(ev.args[2]) is None and not asked(ev.args[2]), {'cmd', 'notify'})], no_inline=NW, min_sites=1)
    for kind in ('COMMAND', 'NOTIFY', 'REPLY'):
        follow(c, 'R6', 'a queued message of kind %s is sent' % kind, f, KW, None, done=sent, trig_br=ty(kind), no_inline=NW, min_trigs=0)
    h = Hits(E, KW, sent, no_inline=NW)
    c.run(h, f)
    for nm in ('sendMessage', 'sendReply'):
        c.check(any(ev.name == nm for ev in h.hits), 'R6', 'messages are sent with ' + nm, '%s in %s' % (f.loc(), f.qn), construct='%s in %s' % (nm, f.qn))
    for ev in h.hits:
        good = isf(ev.args[0], 'command') and isf(ev.args[1], 'buffer') and (ev.name != 'sendReply' or len(ev.args) < 3 or isf(ev.args[2], 'returnCode'))
        odd = any(strip(a)[0] == 'fld' for a in ev.args[:2]) and not good
        c.check(not odd, 'R6', 'command, content and code of the message are sent', '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn), construct='arguments of %s in %s' % (ev.name, f.qn))
    caught = lambda ev: ev.kind == 'catch' and 'InterruptedException' not in str(ev.type)
    c.gates('R6', f, KW | {NS + 'safeInterrupt', CC + 'interrupt'}, {'ended': 'after a failing write the connection is interrupted'}, init=frozenset({'ended'}), ev={'ended': lambda ev: ev.kind == 'call' and ev.name in ('safeInterrupt', 'interrupt')},
            kills={'ended': caught}, exits=lambda k, r: {'ended'} if k == 'ret' else None, no_inline=NW, exc='try', min_sites=1)
    h = Hits(E, KW, caught, no_inline=NW)
    h.exc = 'try'
    c.run(h, f)
    c.check(bool(h.hits), 'R6', 'a failing write is noticed', '%s in %s' % (f.loc(), f.qn), construct='failing write in ' + f.qn)
    # R7
    for q, need in (('sendMessage', {'m_signature', 'm_cb', 'm_have_to_return_data', 'm_command', 'm_flags'}), ('sendReply', {'m_signature', 'm_cb', 'm_have_to_return_data', 'm_command', 'm_flags', 'm_return_code'})):
        f = F.q1(LP + q)
        g = {x: (lambda ev, x=x: writes(x)(ev)) for x in need}
        g['head'] = lambda ev: (ev.kind == 'call' and ev.name in ('writeSome', 'write', 'insert', 'append', 'assign') or ev.kind == 'ctor' and 'vector' in str(ev.term[1])) and any(strip(a)[0] == 'addr' or '&head' in show(a) or 'bucket_head' in str(a) for a in ev.args)
        g['body'] = lambda ev: ev.kind == 'call' and ev.name in ('writeSome', 'write', 'insert', 'append') and any(m.call(a, 'data', 'begin') and m.param(a) for a in ev.args)
        names = {x: 'the header names ' + x[2:] for x in need}
        names.update({'head': 'the header goes out', 'body': 'the content goes out'})
        c.gates('R7', f, None, names, ev=g, targets=[('message written', calls(LP + 'writeStrict'), set(g))], no_inline=(LP + 'writeStrict',), max_depth=2, min_sites=1)
        h = Hits(E, None, lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) in need, no_inline=(LP + 'writeStrict',))
        c.run(h, f)
        for ev in h.hits:
            x, r = last(ev.lhs[2]), strip(ev.rhs)
            good = {'m_signature': lambda: m.glob(r, 'LEVIN_SIGNATURE') or const_of(r) is not None, 'm_cb': lambda: (m.call(r, 'size') or any(x[0] == 'size' for x in subterms(r))) and m.param(r) and noff(r), 'm_command': lambda: m.param(r) and noff(r), 'm_return_code': lambda: m.param(r) and noff(r),
                    'm_flags': lambda: m.glob(r, 'LEVIN_PACKET_REQUEST' if q == 'sendMessage' else 'LEVIN_PACKET_RESPONSE') or not any(m.glob(r, y) for y in ('LEVIN_PACKET_REQUEST', 'LEVIN_PACKET_RESPONSE')),
                    'm_have_to_return_data': lambda: (m.param(r) and r[0] != 'not') if q == 'sendMessage' else r == FALSE}[x]()
            c.check(good, 'R7', 'the %s in the header is that of the message' % x[2:], '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='%s in %s' % (x, f.qn))
    for q, op in (('readStrict', 'read'), ('writeStrict', 'write')):
        f = F.q1(LP + q)
        ask = lambda t: strip(t)[0] == 'param'
        none = lambda t: const_of(t) == 0
        left = lambda t: const_of(t) is None and strip(t)[0] not in ('call', 'icall')
        whole = lambda a, p, ev: leq(a, p, ask, lambda t: not ask(t)) or eq(a, p, ask, lambda t: not ask(t)) or eq(a, p, none, left) or leq(a, p, left, none) or flag(a, p, left) == 0
        c.gates('R7', f, None, {'whole': 'the message went through whole'}, br={'whole': whole}, kills={'whole': lambda ev, op=op: ev.kind == 'call' and ev.name == op}, exits=lambda k, r: {'whole'} if k == 'ret' and r != FALSE else None, min_sites=1)
        adv = lambda ev, op=op: ev.kind == 'write' and m.call(ev.rhs, op) and ev.op in ('+=', '-=', '=')
        follow(c, 'R7', 'the position moves on by what went through', f, None, lambda ev, op=op: ev.kind == 'call' and ev.name == op and ev.obj is not None, done=adv, exits=lambda k, r: k == 'ret' and r != FALSE)
        h = Hits(E, None, lambda ev, op=op: ev.kind == 'call' and ev.name == op and ev.obj is not None and isf(ev.obj, 'm_conn') and len(ev.args) > 1)
        c.run(h, f)
        for ev in h.hits:
            for a, what in zip(ev.args, ('place', 'length')):
                c.check(strip(a)[0] != 'param', 'R7', 'the %s of each step takes what went through before into account' % what, '%s in %s' % (ev.fn.loc(ev.line), f.qn), construct='%s of %s in %s' % (what, op, f.qn))
    f = F.q1(LP + 'readStrict')
    c.gates('R7', f, None, {'open': 'a closed connection ends the reading'}, br={'open': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'read')) == 1}, ev={}, targets=[('position moved', lambda ev: ev.kind == 'write' and m.call(ev.rhs, 'read') and (ev.op in ('+=', '-=') or strip(ev.rhs)[0] == 'op'), {'open'})], min_sites=1)
    # R8
    f = F.q1(NS + 'run')
    grp = lambda n: (lambda ev: ev.kind == 'call' and ev.name == n and ev.obj is not None and isf(ev.obj, 'm_workingContextGroup'))
    KR = {NS + 'm_workingContextGroup', NS + 'm_stopEvent'}
    c.gates('R8', f, KR, {'int': 'all tasks are interrupted', 'wait': 'all tasks are awaited', 'sig': 'the stop signal was awaited'}, ev={'int': grp('interrupt'), 'wait': grp('wait'), 'sig': lambda ev: ev.kind == 'call' and ev.name == 'wait' and ev.obj is not None and isf(ev.obj, 'm_stopEvent')},
            targets=[('tasks interrupted', grp('interrupt'), {'sig'}), ('tasks awaited', grp('wait'), {'int'})], exits=lambda k, r: {'int', 'wait'} if k == 'ret' else None, min_sites=3)
    for loop in ('acceptLoop', 'onIdle', 'timedSyncLoop', 'timeoutLoop'):
        h = Hits(E, KR, lambda ev, loop=loop: grp('spawn')(ev) and any(NS + loop in str(a) or NS + loop in str([F.fns[i].names | {F.fns[y].qn for y in F.fns[i].calls if y in F.fns} for i in lams(a) if i in F.fns]) for a in ev.args))
        c.run(h, f)
        c.check(bool(h.hits), 'R8', 'the task %s is started' % loop, '%s in %s' % (f.loc(), f.qn), construct='%s in %s' % (loop, f.qn))
    sig = roots(F, NS + 'sendStopSignal')
    for nm, pred in (('the flag is set', lambda ev: ev.kind in ('write', 'call') and (writes('m_stop')(ev) or ev.kind == 'call' and ev.obj is not None and isf(ev.obj, 'm_stop') and ev.name in ('operator=', 'store'))), ('the event is set', lambda ev: ev.kind == 'call' and ev.name == 'set' and ev.obj is not None and isf(ev.obj, 'm_stopEvent')), ('the protocol is told', lambda ev: ev.kind == 'call' and ev.name == 'stop')):
        hit = []
        for g in sig:
            h = Hits(E, {NS + 'm_stop', NS + 'm_stopEvent'}, pred)
            c.run(h, g)
            hit += h.hits
        c.check(bool(hit), 'R8', 'on the stop signal ' + nm, '%s in %s' % (sig[0].loc(), sig[0].qn), construct='%s in %s' % (nm, sig[0].qn))
    # R9
    ys = yields(F)
    k = 0
    for fld, where in ((NS + 'm_connections', 'm_connections'), ('cn::HttpServer::m_connections', 'm_connections')):
        for f in list(F.fns.values()):
            if fld in f.names:
                w = Walk(E, lambda t: isf(t, 'm_connections'), ys)
                c.run(w, f)
                for fid, line in sorted(w.loops):
                    k += 1
                    if w.bad:
                        g = F.fns[w.bad[0]]
                        c.bad('R9', 'no other task runs during a walk over the connections', '%s in %s' % (g.loc(w.bad[1]), g.qn), construct='walk in ' + f.qn)
                    else:
                        c.ok('R9', 'no other task runs during a walk over the connections', '%s in %s' % (F.fns[fid].loc(line), f.qn))
    f = F.q1(NS + 'forEachConnection')
    act = lambda ev: ev.kind == 'call' and (ev.name == 'operator()' or ev.kind == 'callval') and ev.obj is not None and m.param(ev.obj)
    c.gates('R9', f, {NS + 'm_connections'}, {'still': 'the connection is still there'}, br={'still': lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or p == 1 and stripc(a)[0] == 'in' or loop_more(E, a, p, lambda t: isf(t, 'm_connections')) == 1 or truth_of(a, p, 'count') == 1}, kills={'still': act}, targets=[('action on a connection', act, {'still'})], min_sites=0)
    # R10
    for g in task:
        push = lambda ev: ev.kind == 'call' and ev.name == 'pushMessage' and any(enumv(x, 'REPLY') for a in ev.args for x in subterms(a))
        need = lambda a, p, ev: truth_of(a, p, 'needReply') == 1
        KR10 = KH | {'cn::LevinProtocol::Command::needReply', CC + 'pushMessage'}
        N10 = NIH + ('cn::LevinProtocol::Command::needReply',)
        follow(c, 'R10', 'a command that expects a reply gets one', g, KR10, None, done=push, trig_br=need, no_inline=N10)
        coded = lambda ev: push(ev) and any(any(isc(x, 'handleCommand') for x in subterms(a)) for a in ev.args)
        c.gates('R10', g, KR10, {'asked': 'a reply is expected', 'known': 'the command was handled, or the code says that it was not'}, br={'asked': need, 'known': lambda a, p, ev: flag(a, p, lambda t: 'handleCommand' in str(t)[:60] or 'handled' in show(t)) == 1},
                kills={'asked': push, 'known': lambda ev: ev.kind == 'call' and ev.name == 'handleCommand'}, targets=[('reply queued', push, {'asked'}), ('reply of a handler queued', coded, {'known'})], no_inline=N10, min_sites=1)
    f = F.q1('cn::LevinProtocol::Command::needReply')
    r = Ret(E)
    c.run(r, f)
    c.check(r.fields >= {'isNotify', 'isResponse'}, 'R10', 'a reply is expected unless the message is a notification or a reply', '%s in %s' % (f.loc(), f.qn), construct='needReply')


class Ret(Rule):
    """the fields that a function tests or returns"""
    init = 0

    def __init__(self, E):
        self.E, self.keys = E, None
        self.reset()

    def reset(self):
        self.fields = set()

    def branch(self, f, a, p, ev):
        self.fields |= {last(x[2]) for x in subterms(a) if x[0] == 'fld' and isinstance(x[2], str)}
        return f

    def leave(self, f, kind, ret, ev, st):
        if ret is not None:
            self.fields |= {last(x[2]) for x in subterms(ret) if x[0] == 'fld' and isinstance(x[2], str)}
