"""The RPC servers: authentication, dispatch, error answers, and answers that say OK."""
from .common import *
from .c17 import Hits
from .c22 import lin
from .c23 import Seq

RS = 'cn::RpcServer::'
HS = 'cn::HttpServer::'
JS = 'cn::JsonRpcServer::'
PS = 'payment_service::PaymentServiceJsonRpcServer::'

META = dict(
    title='RPC requests are served only when authorised and ready, answered truthfully',
    statement='With credentials configured, an HTTP request reaches a handler only if it carries exactly those, any other is answered 401; every request read from a connection is answered once before the next is read, and no failure of one connection or request stops the server. The node refuses commands that need a synchronised core while it is not synchronised, unknown paths and methods get an error, and every exception of a JSON-RPC handler becomes the error of its answer. An answer says OK only if the operation succeeded: the transaction or block was accepted, what was asked for was found, heights exist and lie within the limits, and a proof is good only if every part of it was verified.',
    over=['inputs', 'configurations'],
    qtext='every request, every configuration of credentials and every state of the core',
    why='Wallets, pools and exchanges act on these answers; tests send a few well-formed requests to a stub.',
    files=['src/Rpc/HttpServer.cpp', 'src/Rpc/RpcServer.cpp', 'src/Rpc/JsonRpc.h', 'src/JsonRpcServer/JsonRpcServer.cpp', 'src/PaymentGate/PaymentServiceJsonRpcServer.cpp', 'src/PaymentGate/PaymentServiceJsonRpcServer.h'],
    mechanism=[('connections and authentication', 'HttpServer::acceptLoop, authenticate, start'), ('dispatch', 'RpcServer::processRequest, processJsonRpcRequest, s_handlers'), ('walletd', 'JsonRpcServer::processRequest, PaymentServiceJsonRpcServer::processJsonRpcRequest'), ('answers', 'RpcServer::on_*, f_on_*, k_on_*')],
    state=[('credentials', 'base64 of user:password', 'HttpServer::m_credentials'), ('handlers', 'what may be called, and whether on a busy core', 'RpcServer::s_handlers')],
    observe=['HTTP status', 'JSON-RPC result or error', 'status field of an answer'],
    technique='gate, typestate and dispatch-table analysis over the CFG with helpers inlined and exceptional edges',
    level_note='Decides what every path to a handler, to an answer and to an OK status has passed; the core, the serialisers, the HTTP parser and the dispatcher are trusted here (other properties cover them).',
)
MIN = 60
EXPLAIN = 'Every CFG path of the HTTP and JSON-RPC servers and of the handlers of the node; obligations are one per handler reached, per answer, per table entry and per fact that an OK status needs.'

FILES = ('Rpc/HttpServer.cpp', 'Rpc/HttpServer.h', 'Rpc/RpcServer.cpp', 'Rpc/RpcServer.h', 'Rpc/JsonRpc.h', 'Rpc/JsonRpc.cpp', 'JsonRpcServer/JsonRpcServer.cpp', 'PaymentGate/PaymentServiceJsonRpcServer.cpp', 'PaymentGate/PaymentServiceJsonRpcServer.h')

# commands that answer from a chain which is still behind would mislead
BUSY_NO = ('on_get_blocks', 'on_query_blocks', 'on_query_blocks_lite', 'on_get_indexes', 'on_get_random_outs_bin', 'on_get_random_outs_json', 'onGetPoolChanges', 'onGetPoolChangesLite', 'on_get_transactions', 'on_send_raw_tx',
           'f_on_blocks_list_json', 'f_on_block_json', 'f_on_transaction_json', 'f_on_transactions_pool_json', 'k_on_check_tx_proof', 'k_on_check_reserve_proof', 'on_getblocktemplate', 'on_submitblock', 'on_get_last_block_header',
           'on_get_block_header_by_hash', 'on_get_block_header_by_height')


def HERE(f):
    return any(f.rel().endswith(x) for x in FILES)


class OkExit(Rule):
    """a function that leaves the status OK has established the facts"""

    def __init__(self, E, keys, br, ev, ok, off, always=False, no_inline=(), max_depth=6, ret=lambda r: True):
        self.E, self.keys, self._br, self._ev, self.ok, self.off, self.no_inline, self.max_depth, self.ret = E, keys, br, ev, ok, off, no_inline, max_depth, ret
        self.init = (1 if always else 0, frozenset())
        self.reset()

    def reset(self):
        self.oks, self.missing = set(), {}

    def branch(self, f, a, p, ev):
        s = f[1]
        for k, g in self._br.items():
            if k not in s and g(a, p, ev):
                s = s | {k}
        return (f[0], s)

    def event(self, f, ev, st):
        s = f[1]
        for k, g in self._ev.items():
            if k not in s and g(ev):
                s = s | {k}
        return (1 if self.ok(ev) else 0 if self.off(ev) else f[0], s)

    def leave(self, f, kind, ret, ev, st):
        if kind != 'ret' or not f[0] or not self.ret(ret):
            return
        self.oks.add(ev.line)
        if self.final:
            for k in list(self._br) + list(self._ev):
                if k not in f[1] and not any(k.startswith(x + '|') or ('|' + x) in k for x in ()):
                    self.missing.setdefault(k, (ev, self.E.path(st) if st is not None else []))


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'a request is handed on only with the configured credentials; any other is answered 401')
    c.rule('R2', 'every request is answered once, flushed, before the next is read; an error ends only its connection, and the next connection is always awaited')
    c.rule('R3', 'a handler is called only if it is registered and the core is ready for it; else 404, 500 or an error')
    c.rule('R4', 'a result is given only if the handler succeeded; every exception and every malformed request becomes an error answer')
    c.rule('R5', 'an answer says OK only after everything that it asserts was established')
    c.rule('R6', 'an answer about a block names that block: its hash, height, depth and orphan state belong together')
    c.rule('R7', 'a proof is good only if every part of it was verified, and counts every output of the address once')
    K = HERE
    at = lambda ev: '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn)
    where = lambda g: '%s in %s' % (g.loc(), g.qn)
    par = lambda i: (lambda t: strip(t)[0] == 'param' and strip(t)[1] == i)
    run = lambda rule, fn: (c.run(rule, fn), rule)[1]
    has = lambda t, pred: any(pred(x) for x in subterms(t))
    strc = lambda s: (lambda t: t[0] == 'str' and t[1] == s)
    ishandler = lambda ev: ev.kind == 'call' and (ev.name == 'operator()' or ev.qn is None) and ev.obj is not None and (has(ev.obj, lambda t: isf(t, 'handler')) or has(ev.obj, lambda t: t[0] == 'call' and last(t[1]) in ('find', 'at')))
    one = lambda n: F.q1(n)

    # ---- R1, R2: the connection
    g = one(HS + 'acceptLoop')
    cred = lambda t: isf(t, 'm_credentials')
    header = lambda t: has(t, strc('authorization'))
    rest = lambda t: header(t) and has(t, lambda x: x[0] == 'call' and last(x[1]) == 'substr' and const_of(x[3][0]) == 6 if x[0] == 'call' and len(x[3]) else False)
    start6 = lambda t: header(t) and has(t, lambda x: x[0] == 'call' and last(x[1]) == 'substr' and len(x[3]) == 2 and const_of(x[3][0]) == 0 and const_of(x[3][1]) == 6)
    basic = lambda t: has(t, strc('Basic '))

    def facts(a, p):
        out = set()
        if is_empty(a, p, cred):
            out.add('open')
        x = stripc(a)
        if p == 1 and x[0] == 'in' and has(x[2], strc('authorization')) or ne(a, p, lambda t: isc(t, 'find') and header(t), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1 and header(a):
            out.add('hdr')
        if eq(a, p, start6, lambda t: strip(t) == strip(t) and basic(t)):
            out.add('basic')
        if eq(a, p, rest, lambda t: cred(t)):
            out.add('same')
        if eq(a, p, lambda t: header(t) and not has(t, lambda x: isc(x, 'substr')), lambda t: has(t, cred) and basic(t)):
            out |= {'basic', 'same'}
        return frozenset(out)
    authok = lambda s: 'open' in s or {'hdr', 'basic', 'same'} <= s
    isrecv = lambda ev: ev.kind == 'call' and ev.name == 'receiveRequest'
    isproc = lambda ev: ev.kind == 'call' and ev.name == 'processRequest'
    issent = lambda ev: ev.kind == 'call' and ev.name == 'operator<<' and len(ev.args) == 2 and any('HttpResponse' in str(strip(x)[2]) for x in ev.args if len(strip(x)) > 2)
    is401 = lambda ev: ev.kind == 'call' and ev.name == 'setStatus' and ev.args and enumv(ev.args[0], 'STATUS_401')
    seen = {'recv': 0, 'proc': 0, 'sent': 0, '401': 0, 'flush': 0}
    why = {}

    def say(ev, msg):
        why.setdefault((ev.fn.id, ev.line), msg)
        return True

    def on(s, ev):
        ph, fs = s
        if isrecv(ev):
            seen['recv'] += 1
            bad = ph not in ('init', 'flushed') and say(ev, 'the next request is read before the answer to the last one was sent and flushed')
            return ('got', frozenset()), bad
        if isproc(ev):
            seen['proc'] += 1
            bad = ph != 'got' and say(ev, 'a request is handed on twice or without having been read') or not authok(fs) and say(ev, 'a request is handed on without the configured credentials')
            return ('done', fs), bad
        if is401(ev) and ph == 'got':
            seen['401'] += 1
            return ('done', fs), False
        if issent(ev) and ph != 'init':
            seen['sent'] += 1
            return ('sent', fs), ph != 'done' and say(ev, 'an answer is sent twice, or without the request having been handled or refused')
        if ev.kind == 'catch':
            return ('init', frozenset()), False
        if ev.kind == 'call' and ev.name in ('flush', 'sync', 'pubsync') and ph == 'sent':
            seen['flush'] += 1
            return ('flushed', fs), False
        return s, False

    def br(s, a, p):
        return (s[0], s[1] | facts(a, p)) if s[0] == 'got' else s

    class Conn(Seq):
        left = ()

        def leave(self, f, kind, ret, ev, st):
            if kind == 'ret' and f[0] in ('got', 'done', 'sent') and self.final:
                say(ev, 'a connection is left with a request unanswered')
                self.bad.append(ev)
    r = run(Conn(E, K, on=on, br=br, init=('init', frozenset()), no_inline=(RS + 'processRequest', JS + 'processRequest')), g)
    if not (seen['recv'] and seen['proc'] and seen['sent']):
        c.bad('R2', 'requests are read, handled and answered', where(g), construct='steps of ' + g.qn)
    if not r.bad:
        for k, t in (('proc', 'R1'), ('401', 'R1'), ('recv', 'R2'), ('sent', 'R2')):
            c.ok(t, {'proc': 'requests are handed on with the credentials only', '401': 'others are answered 401', 'recv': 'requests are read after the last answer', 'sent': 'the answer is sent once'}[k], where(g))
    for ev in r.bad[:6]:
        msg = why.get((ev.fn.id, ev.line), 'order of the steps of a connection')
        c.bad('R1' if 'credentials' in msg else 'R2', msg, at(ev), construct='%s in %s' % (msg, g.qn))
    # a refused request is answered 401: a send after a refusal needs the status, shown by 'done'
    c.check(seen['401'] > 0, 'R1', 'a request without the credentials is answered 401', where(g), construct='401 in ' + g.qn)
    for f in F.fns.values():
        for i in f.calls:
            h = F.fns.get(i)
            if last(i.split('(')[0]) == 'processRequest' and i.startswith('cn::') and (h is None or HERE(h)) and 'HttpServer' in i:
                c.check(f.qn == HS + 'acceptLoop' or only_called_from(F, f, (HS + 'acceptLoop',)), 'R1', 'processRequest is called only from the connection loop', where(f), construct='caller of processRequest ' + f.qn)
    # the credentials
    st = one(HS + 'start')
    wr = lambda ev: ev.kind == 'write' and isf(ev.lhs, 'm_credentials')

    class Cred(Seq):
        def leave(self, f, kind, ret, ev, st_):
            if kind == 'ret' and self.final and f[1] < 1 and not {'u', 'p'} <= f[0]:
                self.bad.append(ev)

    def con(s, ev):
        if wr(ev):
            good = has(ev.rhs, lambda t: isc(t, 'encode')) and has(ev.rhs, par(2)) and has(ev.rhs, par(3)) and has(ev.rhs, strc(':')) and order(ev.rhs)
            return (s[0], 1), not good
        return s, False

    def order(t):
        seq = [x for x in walk(t) if par(2)(x) or par(3)(x) or strc(':')(x)]
        k = [2 if par(2)(x) else 3 if par(3)(x) else ':' for x in seq]
        return [x for i, x in enumerate(k) if i == 0 or k[i - 1] != x] == [2, ':', 3]

    def walk(t):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from walk(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            yield from walk(y)

    def cbr(s, a, p):
        for n, i in (('u', 2), ('p', 3)):
            if is_empty(a, p, par(i)):
                s = (s[0] | {n}, s[1])
        return s
    r = run(Cred(E, K, on=con, br=cbr, init=(frozenset(), 0)), st)
    c.check(not r.bad, 'R1', 'the credentials are the encoded user:password whenever one of them is given', at(r.bad[0]) if r.bad else where(st), construct='credentials in ' + st.qn)
    for f in F.fns.values():
        if f.cls_is('cn::HttpServer') if hasattr(f, 'cls_is') else f.qn.startswith(HS):
            if f.qn == st.qn or f.name == 'HttpServer' or only_called_from(F, f, (st.qn,)):
                continue
            hs = run(Hits(E, None, wr), f).hits if f.qn != g.qn else []
            c.check(not hs, 'R1', 'the credentials are set only when the server starts', at(hs[0]) if hs else where(f), construct='credentials written in ' + f.qn)
    js = one(JS + 'start')
    hs = run(Hits(E, None, lambda ev: ev.kind == 'call' and ev.qn == HS + 'start'), js).hits
    c.check(bool(hs) and all(len(ev.args) == 4 and par(2)(ev.args[2]) and par(3)(ev.args[3]) for ev in hs), 'R1', 'walletd hands its credentials to the HTTP server', where(js), construct='credentials of ' + js.qn)
    n = 0
    for f in F.fns.values():
        if f.rel().endswith('PaymentGateService/PaymentGateService.cpp') and any(i.startswith(JS + 'start(') for i in f.calls):
            for ev in run(Hits(E, None, lambda ev: ev.kind == 'call' and ev.qn == JS + 'start'), f).hits:
                n += 1
                c.check(len(ev.args) == 4 and isf(ev.args[2], 'rpcUser') and isf(ev.args[3], 'rpcPassword'), 'R1', 'walletd starts with the configured user and password', at(ev), construct='credentials in ' + f.qn)
    if not n:
        c.bad('R1', 'walletd starts its server', js.loc(), construct='start of walletd')
    # the next connection, failures
    spawn = lambda ev: ev.kind == 'call' and ev.name == 'spawn' and has(ev.term, lambda t: 'acceptLoop' in str(t[1]) if len(t) > 1 else False)
    c.gates('R2', g, K, {'next': 'the next connection is awaited before this one is served', 'kept': 'the connection is removed from the list at the end'}, br={}, ev={'next': spawn, 'kept': lambda ev: ev.kind == 'decl' and 'scope_exit' in ev.type or ev.kind == 'ctor' and 'scope_exit' in str(ev.term)},
            targets=[('request read', isrecv, {'next'})])
    types = set()

    class Catch(Rule):
        exc = 'try'
        init = 0

        def __init__(self, fn):
            self.E, self.keys, self.fn, self.no_inline = E, K, fn, ()
            self.max_depth = 3

        def reset(self):
            self.types, self.again = set(), set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch':
                if f == 1:
                    self.types.add(str(ev.type))
                    return ('c', str(ev.type))
                return f if isinstance(f, tuple) else 0
            if self.hot(ev):
                if isinstance(f, tuple):
                    self.again.add(f[1])
                return 1
            return 0 if f == 1 and ev.kind in ('call', 'ctor') else f

    def caught(fn, hot, names=('std::exception', '...'), again=False):
        x = Catch(fn)
        x.hot = hot
        x.reset()
        c.run(x, fn)
        ts = x.again if again else x.types
        return any(any(nm in t for nm in names) for t in ts), ts
    ok, types = caught(g, isrecv)
    c.check(ok, 'R2', 'an error while a connection is served ends only that connection', where(g), construct='catch in ' + g.qn)
    ok, types = caught(g, lambda ev: ev.kind == 'call' and ev.name == 'accept', again=True)
    c.check(ok, 'R2', 'an error while a connection is accepted does not end the loop', where(g), construct='catch of accept in ' + g.qn)

    # ---- R3: dispatch
    pr, pj = one(RS + 'processRequest'), one(RS + 'processJsonRpcRequest')
    pjk = lambda f: HERE(f) and f.qn != RS + 'isCoreReady'
    hd = lambda t: has(t, lambda x: x[0] == 'call' and last(x[1]) in ('find', 'at', 'operator[]'))
    busy = lambda a, p, ev: flag(a, p, lambda t: isf(t, 'allowBusyCore')) == 1
    ready = lambda a, p, ev: truth_of(a, p, 'isCoreReady') == 1
    found = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or p == 1 and stripc(a)[0] in ('in', 'found') or truth_of(a, p, 'count') == 1
    calls_h = lambda ev: ev.kind == 'call' and ev.name == 'operator()' and ev.obj is not None and has(ev.obj, lambda t: isf(t, 'handler'))
    for fn in (pr, pj):
        c.gates('R3', fn, pjk, {'found': 'the path or method is registered', 'ready': 'the core is synchronised, or the command may be served while it is not'}, br={'found': found, 'ready': lambda a, p, ev: busy(a, p, ev) or ready(a, p, ev)}, ev={},
                targets=[('handler called', calls_h, {'found', 'ready'})], no_inline=(RS + 'isCoreReady',))
    sets = lambda s: (lambda ev: ev.kind == 'call' and ev.name == 'setStatus' and ev.args and enumv(ev.args[0], s))
    missing = lambda a, p, ev: eq(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or p == 0 and stripc(a)[0] in ('in', 'found') or truth_of(a, p, 'count') == 0
    follow(c, 'R3', 'an unknown path is answered 404', pr, pjk, None, done=sets('STATUS_404'), trig_br=missing, no_inline=(RS + 'isCoreReady',))
    follow(c, 'R3', 'a command that needs a synchronised core is answered 500 while it is not', pr, pjk, None, done=sets('STATUS_500'), trig_br=lambda a, p, ev: truth_of(a, p, 'isCoreReady') == 0, no_inline=(RS + 'isCoreReady',))
    rets = lambda k, r: k == 'ret'
    follow(c, 'R3', 'an unknown method is answered with an error', pj, pjk, None, done=lambda ev: ev.kind == 'throw' or ev.kind == 'call' and ev.name == 'setError', trig_br=missing, no_inline=(RS + 'isCoreReady',))
    follow(c, 'R3', 'a method that needs a synchronised core is answered with an error while it is not', pj, pjk, None, done=lambda ev: ev.kind == 'throw' or ev.kind == 'call' and ev.name == 'setError', trig_br=lambda a, p, ev: truth_of(a, p, 'isCoreReady') == 0, no_inline=(RS + 'isCoreReady',))
    ic = one(RS + 'isCoreReady')

    class Vals(Rule):
        init = frozenset()

        def __init__(self):
            self.E, self.keys, self.no_inline, self.out = E, K, (), []

        def reset(self):
            self.out = []

        def branch(self, f, a, p, ev):
            return f | {(a, p)}

        def leave(self, f, kind, ret, ev, st_):
            if kind == 'ret' and self.final:
                self.out.append((f, ret))
    v = run(Vals(), ic)
    istest, issync = (lambda t: isc(t, 'isTestnet')), (lambda t: isc(t, 'isSynchronized'))
    good = bool(v.out)
    for br_, ret in v.out:
        if ret == FALSE:
            continue
        pos = any(flag(a, p, istest) == 1 or flag(a, p, issync) == 1 for a, p in br_)
        rt = strip(ret)
        val = ret != TRUE and (istest(rt) or issync(rt) or rt[0] == 'logic' and rt[1] == '||' and all(istest(strip(x)) or issync(strip(x)) for x in rt[2:]))
        good = good and (pos or val)
    c.check(good, 'R3', 'the core counts as ready only on the testnet or when it is synchronised', where(ic), construct='value of ' + ic.qn)
    # the tables
    rows = {}
    for q, gl in F.globals.items():
        items = gl['items']
        last_f = None
        if not any(x[0] == 'F' and x[2].startswith(RS) for x in items):
            continue
        for x in items:
            if x[0] == 'F' and x[2].startswith(RS):
                last_f = x[2]
            elif x[0] == 'B' and last_f:
                rows.setdefault(last(last_f), []).append((bool(x[1]), q, gl))
                last_f = None
    if len(rows) < 15:
        c.bad('R3', 'the tables of the commands are found', where(pr), construct='tables of the commands')
    for n_ in BUSY_NO:
        for b, q, gl in rows.get(n_, ()):
            c.check(not b, 'R3', 'the command %s is refused while the core is not synchronised' % n_, '%s:%s' % (gl['file'], gl['line']), construct='%s on a busy core in %s' % (n_, q))

    # ---- R4: results and errors
    class Json(Rule):
        """exceptions of the handler end as an error in the answer"""
        exc = 'try'
        init = 'start'

        def __init__(self, called, err, body, ext=()):
            self.E, self.keys, self.no_inline, self.called, self.err, self.body = E, pjk, (RS + 'isCoreReady',) + tuple(ext), called, err, body
            self.max_depth = 5
            self.reset()

        def reset(self):
            self.bad, self.n, self.types = [], 0, set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch':
                self.types.add((f, str(ev.type)))
                return 'err'
            if self.err(ev):
                return 'told'
            if self.called(ev):
                self.n += 1
                return 'called'
            if self.body(ev):
                if f == 'err' and self.final:
                    self.bad.append(('an exception is not told in the answer', ev))
                return 'body'
            return f

        def leave(self, f, kind, ret, ev, st_):
            if kind == 'ret' and f != 'body' and self.final:
                self.bad.append(('a request is left without an answer', ev))
    r = run(Json(calls_h, lambda ev: ev.kind == 'call' and ev.name == 'setError', lambda ev: ev.kind == 'call' and ev.name == 'setBody'), pj)
    ok = any(s == 'called' and ('std::exception' in t or '...' in t) for s, t in r.types)
    c.check(ok, 'R4', 'every exception of a handler is caught', where(pj), construct='catch in ' + pj.qn)
    c.check(bool(r.n) and not r.bad, 'R4', 'every exception ends as the error of the answer' if not r.bad else r.bad[0][0], at(r.bad[0][1]) if r.bad else where(pj), construct='errors of ' + pj.qn)
    setid = lambda ev: ev.kind == 'call' and ev.name == 'setId' and ev.args and has(ev.args[0], lambda t: isc(t, 'getId') or isf(t, 'id'))
    parsed = lambda ev: ev.kind == 'call' and ev.name == 'parseRequest'
    c.gates('R4', pj, pjk, {'id': 'the answer carries the id of the request', 'parsed': 'the request was parsed'}, br={}, ev={'id': setid, 'parsed': parsed}, targets=[('handler called', calls_h, {'id', 'parsed'})], no_inline=(RS + 'isCoreReady', 'cn::JsonRpc::JsonRpcRequest::parseRequest', 'cn::JsonRpc::JsonRpcResponse::setId'))
    prq = [f for f in F.fns.values() if f.qn == 'cn::JsonRpc::JsonRpcRequest::parseRequest']
    for f in prq[:1]:
        c.gates('R4', f, K, {'m': 'the request names a method'}, br={'m': lambda a, p, ev: truth_of(a, p, 'contains') == 1 and has(a, strc('method'))}, ev={}, exits=lambda k, r_: {'m'} if k == 'ret' else None)
        ok, types = caught(f, lambda ev: ev.kind == 'call' and ev.name == 'fromString')
    inv = [f for f in F.fns.values() if f.qn == 'cn::JsonRpc::invokeMethod' and 'RpcServer' in f.id]
    if not inv:
        c.bad('R4', 'the methods are invoked', where(pj), construct='invokeMethod')
    ishc = lambda t: t[0] == 'call' and last(t[1]) in ('operator()', 'icall') or t[0] == 'icall'
    for f in sorted(inv, key=lambda f: f.id):
        c.gates('R4', f, K, {'ok': 'the handler returned success', 'load': 'the parameters were loaded'},
                br={'ok': lambda a, p, ev: flag(a, p, lambda t: ishc(t) and has(t, par(2))) == 1, 'load': lambda a, p, ev: truth_of(a, p, 'loadParams') == 1 or p == 1 and has(a, lambda t: t[0] == 'glob' and 'is_same' in str(t[1]))}, ev={},
                targets=[('result given', lambda ev: ev.kind == 'call' and ev.name == 'setResult', {'ok'})], no_inline=('cn::JsonRpc::JsonRpcResponse::setResult', 'cn::JsonRpc::JsonRpcRequest::loadParams'))
    # binary and JSON commands
    lamf = [f for i, f in F.fns.items() if f.rel().endswith('Rpc/RpcServer.cpp') and '$lambda' in i and ('binMethod<' in i or 'jsonMethod<' in i)]
    if not lamf:
        c.bad('R4', 'the commands are decoded', where(pr), construct='binMethod')
    isl = lambda ev: ev.kind == 'call' and ev.term[0] == 'icall'
    for f in sorted(lamf, key=lambda f: f.id):
        c.gates('R4', f, K, {'load': 'the request was decoded'}, br={'load': lambda a, p, ev: truth_of(a, p, 'loadFromBinaryKeyValue') == 1 or truth_of(a, p, 'loadFromJson') == 1}, ev={}, targets=[('handler called', isl, {'load'})])
        follow(c, 'R4', 'the answer of the handler is encoded', f, K, isl, done=lambda ev: ev.kind == 'call' and ev.name == 'setBody' and has(ev.term, lambda t: isc(t, 'storeToBinaryKeyValue', 'storeToJson')))
    # walletd
    jp = one(JS + 'processRequest')
    isj = lambda ev: ev.kind == 'call' and ev.name == 'processJsonRpcRequest'
    c.gates('R4', jp, K, {'url': 'the path is /json_rpc', 'parsed': 'the request was parsed'}, br={'url': lambda a, p, ev: eq(a, p, lambda t: isc(t, 'getUrl'), strc('/json_rpc'))}, ev={'parsed': lambda ev: ev.kind == 'call' and (ev.name == 'operator>>' or ev.name == 'fromString')}, targets=[('request handed on', isj, {'url', 'parsed'})])
    follow(c, 'R4', 'another path is answered 404', jp, K, None, done=sets('STATUS_404'), trig_br=lambda a, p, ev: ne(a, p, lambda t: isc(t, 'getUrl'), strc('/json_rpc')))
    follow(c, 'R4', 'the answer is sent', jp, K, isj, done=lambda ev: ev.kind == 'call' and ev.name == 'setBody')

    class Web(Rule):
        exc = 'try'
        init = 'start'

        def __init__(self, hot, good, no=()):
            self.E, self.keys, self.no_inline, self.hot, self.good, self.max_depth = E, K, no, hot, good, 4
            self.reset()

        def reset(self):
            self.bad, self.types = [], set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch':
                self.types.add((f, str(ev.type)))
                return 'err'
            if f == 'err' and self.good(ev):
                return 'told'
            if f in ('start', 'hot') and self.hot(ev):
                return 'hot'
            return 'start' if f == 'hot' and ev.kind in ('call', 'ctor') else f

        def leave(self, f, kind, ret, ev, st_):
            if kind == 'ret' and f == 'err' and self.final:
                self.bad.append(ev)
    r = run(Web(isj, lambda ev: sets('STATUS_500')(ev) or ev.kind == 'call' and ev.name in ('makeJsonParsingErrorResponse', 'makeGenericErrorReponse', 'setBody'), no=(JS + 'makeJsonParsingErrorResponse', JS + 'makeGenericErrorReponse', JS + 'processJsonRpcRequest', PS + 'processJsonRpcRequest')), jp)
    c.check(any(s == 'hot' and ('std::exception' in t or '...' in t) for s, t in r.types), 'R4', 'every exception of a request is caught', where(jp), construct='catch in ' + jp.qn)
    c.check(not r.bad, 'R4', 'every exception is told in the answer', at(r.bad[0]) if r.bad else where(jp), construct='errors of ' + jp.qn)
    pp = one(PS + 'processJsonRpcRequest')
    tableh = lambda ev: ev.kind == 'call' and ev.name == 'operator()' and ev.obj is not None and has(ev.obj, lambda t: isf(t, 'handlers'))
    ERR = ('makeGenericErrorReponse', 'makeMethodNotFoundResponse', 'makeErrorResponse', 'makeJsonParsingErrorResponse')
    NOE = tuple(JS + x for x in ERR) + (JS + 'fillJsonResponse', JS + 'prepareJsonResponse')
    iserr = lambda ev: ev.kind == 'call' and ev.name in ERR
    c.gates('R4', pp, K, {'id': 'the answer carries the id of the request', 'method': 'the request names a method', 'str': 'the method is a string', 'found': 'the method is known'},
            br={'method': lambda a, p, ev: truth_of(a, p, 'contains') == 1 and has(a, strc('method')), 'str': lambda a, p, ev: truth_of(a, p, 'isString') == 1, 'found': found}, ev={'id': lambda ev: ev.kind == 'call' and ev.name == 'prepareJsonResponse'},
            targets=[('handler called', tableh, {'id', 'method', 'found'})], no_inline=NOE)
    for what, tb in (('a request without a method is answered with an error', lambda a, p, ev: truth_of(a, p, 'contains') == 0 and has(a, strc('method'))), ('an unknown method is answered with an error', missing)):
        follow(c, 'R4', what, pp, K, None, done=iserr, trig_br=tb, no_inline=NOE)
    r = run(Web(tableh, iserr, no=NOE), pp)
    c.check(any(s == 'hot' and ('std::exception' in t or '...' in t) for s, t in r.types), 'R4', 'every exception of a handler is caught', where(pp), construct='catch in ' + pp.qn)
    c.check(not r.bad, 'R4', 'every exception is told in the answer', at(r.bad[0]) if r.bad else where(pp), construct='errors of ' + pp.qn)
    jl = sorted((f for i, f in F.fns.items() if 'PaymentServiceJsonRpcServer::jsonHandler<' in i and '$lambda' in i), key=lambda f: f.id)
    if not jl:
        c.bad('R4', 'the commands of walletd are decoded', where(pp), construct='jsonHandler')
    fill = lambda ev: ev.kind == 'call' and ev.name == 'fillJsonResponse'
    hcall = lambda ev: ev.kind == 'call' and ev.name == 'operator()'
    eco = lambda a: has(a, lambda t: isc(t, 'operator()'))
    noec = lambda a, p, ev: truth_of(a, p, 'operator bool') == 0 and eco(a) or eq(a, p, eco, lambda t: isc(t, 'error_code') or t[0] in ('ctor', 'obj')) or eq(a, p, lambda t: eco(t) and has(t, lambda x: isc(x, 'value')), lambda t: const_of(t) == 0)
    someec = lambda a, p, ev: truth_of(a, p, 'operator bool') == 1 and eco(a) or ne(a, p, eco, lambda t: isc(t, 'error_code') or t[0] in ('ctor', 'obj')) or ne(a, p, lambda t: eco(t) and has(t, lambda x: isc(x, 'value')), lambda t: const_of(t) == 0)
    for f in jl:
        c.gates('R4', f, K, {'ec': 'the handler reported no error', 'load': 'the request was decoded'}, br={'ec': noec}, ev={'load': lambda ev: ev.kind == 'call' and ev.name == 'serialize'}, targets=[('result given', fill, {'ec'}), ('handler called', hcall, {'load'})], no_inline=NOE)
        follow(c, 'R4', 'an error of the handler is told', f, K, None, done=lambda ev: ev.kind == 'call' and ev.name in ('makeErrorResponse', 'makeGenericErrorReponse'), trig_br=someec, no_inline=NOE)
    if jl:
        f = jl[0]
        r = run(Web(lambda ev: ev.kind == 'call' and ev.name == 'serialize', iserr, no=NOE), f)
        c.check(not r.bad, 'R4', 'a request that cannot be decoded is answered with an error', at(r.bad[0]) if r.bad else where(f), construct='errors of jsonHandler')

    # ---- R5: OK
    stat = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'fld' and last(strip(ev.lhs)[2]) == 'status'
    okv = lambda t: has(t, lambda x: x[0] in ('glob', 'enum') and last(str(x[1])) == 'CORE_RPC_STATUS_OK') or has(t, strc('OK'))
    isok = lambda ev: stat(ev) and okv(ev.rhs)
    isno = lambda ev: stat(ev) and not okv(ev.rhs)
    tr = lambda *ns, **kw: (lambda a, p, ev: truth_of(a, p, *ns) == 1 and (not kw.get('arg') or has(a, kw['arg'])))
    height = lambda t: isc(t, 'get_current_blockchain_height', 'getCurrentBlockchainHeight')
    reqh = lambda t: isf(t, 'height') and has(t, par(0))
    tall = lambda a, p, ev: lt(a, p, reqh, height)
    tophash = lambda t: isc(t, 'getBlockIdByHeight')
    hashp = lambda a, p, ev: truth_of(a, p, 'parse_hash256') == 1
    getb = tr('getBlockByHash')
    RSQ = tuple(RS + n_ for n_ in ('fill_f_block_details_response',)) + ('cn::core::*', 'cn::Blockchain::*', 'cn::Currency::*')
    onetx = lambda a, p, ev: eq(a, p, lambda t: const_of(t) == 1, lambda t: isc(t, 'size') or t[0] == 'size') or (p == 0 and False)
    genesis = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'block_ids') or has(t, lambda x: isf(x, 'block_ids')), lambda t: isc(t, 'getBlockIdByHeight') and any(const_of(y) == 0 for y in strip(t)[3]))
    nonempty = lambda f_: (lambda a, p, ev: (stripc(a)[0] == 'empty' and p == 0 and has(a, lambda t: isf(t, f_))) or truth_of(a, p, 'empty') == 0 and has(a, lambda t: isf(t, f_)) or flag(a, p, lambda t: (isc(t, 'size') or t[0] == 'size') and has(t, lambda x: isf(x, f_))) == 1)
    sz1 = lambda a, p, ev: eq(a, p, lambda t: const_of(t) == 1, lambda t: (isc(t, 'size') or t[0] == 'size') and has(t, par(0)))
    fromhex = lambda a, p, ev: truth_of(a, p, 'fromHex') == 1 and has(a, par(0))
    fld1 = lambda n_: (lambda a, p, ev: flag(a, p, lambda t: isf(t, n_)) == 1)
    fld0 = lambda n_: (lambda a, p, ev: flag(a, p, lambda t: isf(t, n_)) == 0)
    cl = lambda n_, *ar: (lambda ev: ev.kind == 'call' and ev.name == n_ and all(x(ev) for x in ar))
    nullkey = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'getTransactionPublicKeyFromExtra') and has(t, lambda x: isf(x, 'extra')), lambda t: last(str(strip(t)[1])) == 'NULL_PUBLIC_KEY' if len(strip(t)) > 1 else False)
    anystr = lambda f_: (lambda t: isf(t, f_))
    H = {
        'on_get_blocks': ({'a list of ids was sent': nonempty('block_ids'), 'its last id is the genesis block': genesis}, {'the common history is found': cl('findBlockchainSupplement')}),
        'on_query_blocks': ({'the query succeeded': tr('queryBlocks')}, {}),
        'on_query_blocks_lite': ({'the query succeeded': tr('queryBlocksLite')}, {}),
        'on_get_indexes': ({'the transaction was found': tr('get_tx_outputs_gindexs', arg=anystr('txid'))}, {}),
        'on_get_random_outs_bin': ({'the outputs were found': tr('get_random_outs_for_amounts')}, {}),
        'on_get_random_outs_json': ({'the outputs were found': tr('get_random_outs_for_amounts')}, {}),
        'on_send_raw_tx': ({'the transaction is hexadecimal': fromhex, 'it is not too big': lambda a, p, ev: leq(a, p, lambda t: isc(t, 'size') or t[0] == 'size', lambda t: isc(t, 'transactionMaxSize')), 'the core took it': tr('handle_incoming_tx'), 'it was verified': fld0('m_verification_failed'), 'it is to be relayed': fld1('m_should_be_relayed')},
                           {'it was relayed': cl('relay_transactions')}),
        'on_get_block_timestamp_by_height': ({'the height exists': tall}, {'the timestamp is that of the height': cl('getBlockTimestamp', lambda ev: reqh(ev.args[0]))}),
        'on_get_block_details_by_height': ({'the height exists': tall, 'the details were found': tr('fill_f_block_details_response', arg=lambda t: tophash(t) and has(t, reqh))}, {}),
        'f_on_blocks_list_json': ({'the height exists': tall}, {}),
        'f_on_block_json': ({'the hash was parsed': hashp, 'the details were found': tr('fill_f_block_details_response')}, {}),
        'f_on_transaction_json': ({'the hash was parsed': hashp, 'the transaction was found': onetx}, {'the transaction was asked for': cl('getTransactions')}),
        'on_getblocktemplate': ({'the reserve is not too big': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'reserve_size'), lambda t: const_of(t) is not None or last(str(strip(t)[1])) == 'TX_EXTRA_NONCE_MAX_COUNT'), 'the address was parsed': tr('parseAccountAddressString', arg=anystr('wallet_address')), 'the template was made': tr('get_block_template'), 'its transaction key was found': nullkey}, {}),
        'on_submitblock': ({'one block was sent': sz1, 'it is hexadecimal': fromhex, 'it was added to the main chain': fld1('m_added_to_main_chain')}, {'the core took it': cl('handle_incoming_block_blob')}),
        'on_get_last_block_header': ({'the block was found': getb}, {'the top block is asked for': cl('get_blockchain_top')}),
        'on_get_block_header_by_hash': ({'the hash was parsed': hashp, 'the block was found': getb}, {}),
        'on_get_block_header_by_height': ({'the height exists': tall, 'the block was found': lambda a, p, ev: truth_of(a, p, 'getBlockByHash') == 1 and has(a, tophash) and has(a, reqh)}, {}),
        'on_get_info': ({'the top block was found': getb}, {}),
        'k_on_check_tx_proof': ({'the transaction id was parsed': hashp, 'the address was parsed': tr('parseAccountAddressString'), 'the transaction was found': onetx, 'its key was found': nullkey}, {}),
        'on_start_mining': ({'the address was parsed': tr('parseAccountAddressString'), 'the miner started': tr('start')}, {}),
        'on_stop_mining': ({'the miner stopped': tr('stop')}, {}),
        'on_get_txs_with_output_global_indexes': ({}, {}),
        'on_get_transactions': ({}, {}),
        'onGetPoolChanges': ({}, {'the pool is compared': cl('getPoolChanges')}),
        'onGetPoolChangesLite': ({}, {'the pool is compared': cl('getPoolChangesLite')}),
        'on_getblockcount': ({}, {}),
        'on_get_height': ({}, {}),
    }
    fns = {}
    for n_, (brs, evs) in sorted(H.items()):
        fn = one(RS + n_)
        fns[n_] = fn
        r = run(OkExit(E, pjk, brs, evs, isok, isno, no_inline=RSQ), fn)
        if not r.oks:
            c.bad('R5', 'the command can succeed', where(fn), construct='OK of ' + fn.qn)
            continue
        for k in list(brs) + list(evs):
            if k in r.missing:
                ev, path = r.missing[k]
                c.bad('R5', 'OK only if ' + k, at(ev), path, construct='OK of %s: %s' % (fn.qn, k))
            else:
                c.ok('R5', 'OK only if ' + k, where(fn))
    fn = one(RS + 'on_getblockhash')
    brs = {'one height was sent': sz1, 'the height exists': lambda a, p, ev: ne(a, p, lambda t: True, lambda t: last(str(strip(t)[1])) == 'NULL_HASH' if len(strip(t)) > 1 else False) or lt(a, p, lambda t: has(t, par(0)), height)}
    r = run(OkExit(E, pjk, brs, {}, lambda ev: False, lambda ev: False, always=True, ret=lambda r_: r_ != FALSE), fn)
    for k in brs:
        c.check(k not in r.missing, 'R5', 'a hash is returned only if ' + k, at(r.missing[k][0]) if k in r.missing else where(fn), construct='result of %s: %s' % (fn.qn, k))
    fb = one(RS + 'fill_f_block_details_response')
    need = {'the block was found': lambda a, p, ev: truth_of(a, p, 'getBlockByHash') == 1 and has(a, par(0)), 'its size is known': lambda a, p, ev: truth_of(a, p, 'getBlockSize') == 1, 'the coins before it are known': lambda a, p, ev: truth_of(a, p, 'getAlreadyGeneratedCoins') == 1, 'the sizes before it are known': lambda a, p, ev: truth_of(a, p, 'getBackwardBlocksSizes') == 1}
    r = run(OkExit(E, pjk, need, {}, lambda ev: False, lambda ev: False, always=True, ret=lambda r_: r_ != FALSE), fb)
    for k in need:
        c.check(k not in r.missing, 'R5', 'details are given only if ' + k, at(r.missing[k][0]) if k in r.missing else where(fb), construct='details: ' + k)
    # every answered transaction, hash, height
    fn = fns['on_get_transactions']
    push = lambda *fs: (lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert', 'emplace') and ev.obj is not None and any(isf(ev.obj, x) for x in fs))
    c.gates('R5', fn, pjk, {'hash': 'the hash was parsed'}, br={'hash': hashp}, ev={}, fresh=lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, 'txs_hashes')) == 1,
            targets=[('hash asked for', lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and 'Hash' in str(strip(ev.obj)[2] if strip(ev.obj)[0] == 'obj' else '') and has(ev.term, lambda t: 'parse_hash256' in str(t) or t[0] in ('obj', 'phi', 'out')), {'hash'})])
    badst = lambda ev: isno(ev)
    follow(c, 'R5', 'a hash that cannot be parsed is told', fn, pjk, None, done=badst, trig_br=lambda a, p, ev: truth_of(a, p, 'parse_hash256') == 0)
    algo = run(Hits(E, pjk, lambda ev: ev.kind == 'call' and ev.name in ('transform', 'for_each', 'copy') and has(ev.term, lambda t: t[0] in ('obj', 'out', 'phi') and 'missed' in str(t[1])) and has(ev.term, lambda t: isf(t, 'missed_tx', 'missed_txs'))), fn).hits
    if algo:
        c.ok('R5', 'every transaction that was not found is told', at(algo[0]))
    else:
        c.each('R5', 'every transaction that was not found is told', fn, pjk, lambda t: t[0] in ('obj', 'out', 'phi') and 'missed' in str(t[1]), done=push('missed_tx', 'missed_txs'), exits=lambda k, r_: False)
    fn = fns['onGetPoolChanges']
    follow(c, 'R5', 'a transaction that cannot be encoded is told', fn, pjk, None, done=isno, trig_br=lambda a, p, ev: truth_of(a, p, 'toBinaryArray') == 0)
    c.gates('R5', fn, pjk, {'enc': 'the transaction was encoded'}, br={'enc': tr('toBinaryArray')}, ev={}, targets=[('transaction answered', push('addedTxs'), {'enc'})])
    fn = fns['on_get_txs_with_output_global_indexes']
    lim = lambda t: last(str(strip(t)[1])) == 'BLOCK_LIST_MAX_COUNT' or const_of(t) == 1000 if len(strip(t)) > 1 else False
    rng = fld1('range')
    hts = lambda t: has(t, lambda x: isf(x, 'heights'))
    two = lambda a, p, ev: eq(a, p, lambda t: const_of(t) == 2, lambda t: (isc(t, 'size') or t[0] == 'size') and hts(t))
    elem = lambda t, k: hts(t) and has(t, lambda x: isc(x, 'front') or isc(x, 'begin') or x[0] == 'idx' and const_of(x[2]) == 0 or isc(x, 'operator[]', 'at') and x[3] and const_of(x[3][-1]) == 0) if k == 0 else hts(t) and has(t, lambda x: isc(x, 'back') or x[0] == 'idx' and const_of(x[2]) == 1 or isc(x, 'operator[]', 'at') and x[3] and const_of(x[3][-1]) == 1)
    lo, hi = (lambda t: elem(t, 0)), (lambda t: elem(t, 1))
    ordered = lambda a, p, ev: leq(a, p, lo, hi)
    few = lambda a, p, ev: leq(a, p, lambda t: hts(t) and has(t, lo) and has(t, hi) and not lim(t), lim)
    fewer = lambda a, p, ev: few(a, p, ev) or leq(a, p, lambda t: hts(t) and (isc(t, 'size') or t[0] == 'size'), lim)
    exists = lambda a, p, ev: lt(a, p, lo, height)
    fill_ = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.obj is not None and strip(ev.obj)[0] in ('obj', 'phi', 'var') and 'std::vector<unsigned int' in str(strip(ev.obj))
    c.gates('R5', fn, pjk, {'two': 'a range has two heights', 'ord': 'the range is ordered', 'few': 'the range is within the limit', 'exists': 'the range starts on the chain'}, br={'two': two, 'ord': ordered, 'few': few, 'exists': exists}, ev={}, targets=[('height of the range', fill_, {'two', 'ord', 'few', 'exists'})])
    answered = push('transactions')
    below = lambda a, p, ev: lt(a, p, lambda t: not height(t) and const_of(t) is None, height)
    c.gates('R5', fn, pjk, {'below': 'the height exists', 'block': 'its block was found', 'few': 'the number of heights is within the limit', 'txs': 'its transactions were found'}, br={'below': below, 'block': getb, 'txs': tr('getTransactionsWithOutputGlobalIndexes')}, ev={},
            kills={'below': lambda ev: False}, targets=[('transaction answered', answered, {'below', 'block', 'txs'})])
    c.gates('R5', fn, pjk, {'few': 'the number of heights is within the limit'}, br={'few': fewer}, ev={}, targets=[('blocks read', cl('getBlockByHash'), {'few'})])
    for n_, fld_, src in (('on_getblockcount', 'count', height), ('on_get_height', 'height', height), ('on_get_info', 'height', height)):
        fn = fns[n_]
        hs = run(Hits(E, pjk, lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'fld' and last(strip(ev.lhs)[2]) == fld_ and par(1)(strip(ev.lhs)[1] or ('none',))), fn).hits
        c.check(bool(hs) and all(src(stripc(strip(ev.rhs))) for ev in hs), 'R5', 'the height answered is that of the chain', at(hs[0]) if hs else where(fn), construct='height of ' + fn.qn)

    # ---- R6: blocks
    lhsf = lambda ev, n_: ev.kind == 'write' and strip(ev.lhs)[0] == 'fld' and last(strip(ev.lhs)[2]) == n_
    for n_ in ('on_get_last_block_header', 'on_get_block_header_by_hash', 'on_get_block_header_by_height', 'fill_f_block_details_response'):
        fn = one(RS + n_)
        hs = run(Hits(E, pjk, lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'fld' and last(strip(ev.lhs)[2]) in ('hash', 'height', 'depth', 'orphan_status', 'timestamp', 'prev_hash', 'nonce', 'major_version', 'minor_version')), fn).hits
        asked = [ev.args[0] for ev in run(Hits(E, pjk, cl('getBlockByHash')), fn).hits]
        H0 = strip(asked[0]) if asked else None
        hgt = [strip(ev.rhs) for ev in hs if last(strip(ev.lhs)[2]) == 'height']
        X = hgt[0] if hgt else None
        if H0 is None or X is None:
            c.bad('R6', 'the block asked for is answered', where(fn), construct='block of ' + fn.qn)
            continue
        kinds = set()
        for ev in hs:
            k = last(strip(ev.lhs)[2])
            kinds.add(k)
            v = ev.rhs
            if k == 'hash':
                ok = has(v, lambda t: strip(t) == H0) or has(v, lambda t: isf(t, 'hash'))
                if not ok and has(v, lambda t: isc(t, 'getObjectHash')):
                    continue
            elif k == 'height':
                ok = strip(v) == X or isf(v, 'height')
            elif k == 'depth':
                d = lin(v)
                ok = d.get(None) == -1 and sum(1 for x in d if x is not None and height(x) and d[x] == 1) == 1 and sum(1 for x in d if x is not None and not height(x) and d[x] == -1 and (x == X or isf(x, 'height'))) == 1 and len(d) == 3
                ok = ok or isf(v, 'depth')
            elif k == 'orphan_status':
                t = stripc(strip(v))
                ok = t[0] == 'cmp' and t[1] == '!=' and any(strip(u) == H0 and tophash(w) and any(strip(y) == X for y in strip(w)[3]) for u, w in ((t[2], t[3]), (t[3], t[2]))) or isf(t, 'orphan_status')
                if t[0] in ('param', 'phi', 'cond', 'bool', 'int'):
                    ok = ok or t[0] in ('phi', 'cond')
            else:
                src = {'timestamp': 'timestamp', 'prev_hash': 'previousBlockHash', 'nonce': 'nonce', 'major_version': 'majorVersion', 'minor_version': 'minorVersion'}[k]
                ok = has(v, lambda t: isf(t, src) or isf(t, k))
            c.check(ok, 'R6', 'the %s of the block is its own' % k, at(ev), construct='%s of a block in %s' % (k, fn.qn))
        for k in ('hash', 'height', 'depth', 'orphan_status', 'timestamp', 'prev_hash'):
            if k not in kinds:
                c.bad('R6', 'the %s of the block is answered' % k, where(fn), construct='%s of a block in %s' % (k, fn.qn))
        # the height that was found belongs to the block, the hash to the request
        hx = has(X, lambda t: isf(t, 'blockIndex')) or has(X, par(0)) or 'get_blockchain_top' in str(X) or X[0] in ('obj', 'out')
        c.check(hx, 'R6', 'the height is that of the block', where(fn), construct='height source of ' + fn.qn)
    for n_ in ('f_on_block_json', 'on_get_block_header_by_hash'):
        fn = one(RS + n_)
        tgt = 'fill_f_block_details_response' if n_ == 'f_on_block_json' else 'getBlockByHash'
        ph = [strip(ev.args[1]) for ev in run(Hits(E, pjk, cl('parse_hash256'), no_inline=RSQ), fn).hits if len(ev.args) > 1]
        ps = [ev for ev in run(Hits(E, pjk, cl('parse_hash256'), no_inline=RSQ), fn).hits]
        tg = [ev for ev in run(Hits(E, pjk, cl(tgt), no_inline=RSQ), fn).hits]
        c.check(bool(ps) and bool(tg) and all(strip(ev.args[0]) in ph or 'parse_hash256' in str(ev.args[0]) for ev in tg) and all(isf(ev.args[0], 'hash') for ev in ps), 'R6', 'the block that was asked for is looked up', where(fn), construct='hash asked of ' + fn.qn)
    fl = one(RS + 'f_on_blocks_list_json')
    hs = run(Hits(E, pjk, lambda ev: lhsf(ev, 'height') or lhsf(ev, 'hash')), fl).hits
    hb = [strip(ev.rhs) for ev in hs if lhsf(ev, 'height')]
    hh = [ev for ev in hs if lhsf(ev, 'hash')]
    c.check(bool(hb) and bool(hh) and all(has(ev.rhs, lambda t: tophash(t) and any(strip(y) in hb for y in strip(t)[3])) for ev in hh), 'R6', 'a listed block has the hash at its height', at(hh[0]) if hh else where(fl), construct='hash of ' + fl.qn)
    fn = fns['on_get_txs_with_output_global_indexes']
    ws = run(Hits(E, pjk, lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] == 'fld' and last(strip(ev.lhs)[2]) in ('block_hash', 'height')), fn).hits
    hb = [strip(ev.rhs) for ev in ws if lhsf(ev, 'height')]
    hh = [ev for ev in ws if lhsf(ev, 'block_hash')]
    c.check(bool(hb) and bool(hh) and all(has(ev.rhs, lambda t: tophash(t) and any(strip(y) in hb for y in strip(t)[3])) for ev in hh), 'R6', 'a transaction is answered with the hash and the height of its block', at(hh[0]) if hh else where(fn), construct='block of ' + fn.qn)

    # ---- R7: proofs
    fn = fns['k_on_check_tx_proof']
    proof = lambda a, p, ev: truth_of(a, p, 'check_tx_proof') == 1
    own = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'key') or has(t, lambda x: isf(x, 'key')), lambda t: not has(t, lambda x: isf(x, 'key')) and 'PublicKey' in str(t) or 'derive_public_key' in str(t))
    amount = lambda ev: ev.kind == 'write' and strip(ev.lhs)[0] in ('var', 'obj', 'fld') and ev.op in ('+=', '=') and has(ev.rhs, lambda t: isf(t, 'amount'))
    isaddr = lambda n_: (lambda t: has(t, lambda x: isf(x, n_)))
    derived = lambda ev: ev.kind == 'call' and ev.name == 'derive_public_key'
    c.gates('R7', fn, pjk, {'proof': 'the proof was verified', 'own': 'the output belongs to the address'}, br={'proof': proof, 'own': own}, ev={}, kills={'own': derived}, targets=[('amount counted', amount, {'proof', 'own'})])
    prf = run(Hits(E, pjk, cl('check_tx_proof')), fn).hits
    c.check(bool(prf) and all(len(ev.args) == 5 and has(ev.args[1], lambda t: isc(t, 'getTransactionPublicKeyFromExtra')) and isf(ev.args[2], 'viewPublicKey') for ev in prf), 'R7', 'the proof is checked against the key of the transaction and the view key of the address', at(prf[0]) if prf else where(fn), construct='check_tx_proof in ' + fn.qn)
    dv = run(Hits(E, pjk, derived), fn).hits
    c.check(bool(dv) and all(isf(ev.args[2], 'spendPublicKey') for ev in dv), 'R7', 'the outputs are compared with the spend key of the address', at(dv[0]) if dv else where(fn), construct='derive_public_key in ' + fn.qn)
    valid = run(Hits(E, pjk, lambda ev: lhsf(ev, 'signature_valid')), fn).hits
    c.check(bool(valid) and all(has(ev.rhs, lambda t: isc(t, 'check_tx_proof')) or ev.rhs == FALSE for ev in valid), 'R7', 'the proof is called valid by its check only', at(valid[0]) if valid else where(fn), construct='signature_valid in ' + fn.qn)
    idx = run(Hits(E, pjk, lambda ev: derived(ev)), fn).hits
    inc = run(Hits(E, pjk, lambda ev: ev.kind == 'write' and ev.op == '++'), fn).hits
    fn = one(RS + 'k_on_check_reserve_proof')
    good = lambda ev: lhsf(ev, 'good') and ev.rhs != FALSE
    proofs = lambda t: isf(t, 'proofs')
    fresh = lambda a, p, ev: loop_more(E, a, p, proofs) == 1
    once = lambda a, p, ev: p == 1 and has(a, lambda t: isf(t, 'second') and has(t, lambda x: isc(x, 'insert', 'emplace') and has(x, lambda y: isf(y, 'key_image')))) or absent(a, p, lambda t: has(t, lambda y: isf(y, 'key_image'))) or truth_of(a, p, 'count') == 0 and has(a, lambda y: isf(y, 'key_image'))
    inb = lambda a, p, ev: lt(a, p, lambda t: isf(t, 'index_in_tx'), lambda t: (isc(t, 'size') or t[0] == 'size') and has(t, lambda x: isf(x, 'outputs')))
    shared = lambda a, p, ev: truth_of(a, p, 'check_tx_proof') == 1 and has(a, lambda t: isf(t, 'shared_secret'))
    ring = lambda a, p, ev: truth_of(a, p, 'check_ring_signature') == 1 and has(a, lambda t: isf(t, 'key_image'))
    total = lambda ev: lhsf(ev, 'total') and has(ev.rhs, lambda t: isf(t, 'amount'))
    spent = lambda ev: lhsf(ev, 'spent') and has(ev.rhs, lambda t: isf(t, 'amount'))
    isspent = lambda a, p, ev: truth_of(a, p, 'is_key_image_spent') == 1 and has(a, lambda t: isf(t, 'key_image'))
    c.gates('R7', fn, pjk, {'once': 'no other entry had its key image', 'in': 'its output exists', 'shared': 'its shared secret was verified', 'ring': 'its key image was verified', 'own': 'its output belongs to the address', 'spent': 'its key image is spent'},
            br={'once': once, 'in': inb, 'shared': shared, 'ring': ring, 'own': own, 'spent': isspent}, ev={}, fresh=fresh, targets=[('amount counted', total, {'once', 'in', 'shared', 'ring', 'own'}), ('amount counted as spent', spent, {'ring', 'own', 'spent'})])
    checked = lambda ev: ev.rhs[0] == 'call' and isc(ev.rhs, 'check_signature') and has(ev.rhs, lambda t: isf(t, 'spendPublicKey'))
    sig = lambda a, p, ev: truth_of(a, p, 'check_signature') == 1 and has(a, lambda t: isf(t, 'spendPublicKey'))
    allf = lambda a, p, ev: is_empty(a, p, lambda t: 'missed' in str(t))
    c.gates('R7', fn, pjk, {'sig': 'the address signed the proof', 'found': 'every transaction was found', 'addr': 'the address was parsed', 'dec': 'the proof was decoded'}, br={'sig': sig, 'found': allf, 'addr': tr('parseAccountAddressString'), 'dec': tr('fromBinaryArray')}, ev={}, targets=[('proof called good', lambda ev: good(ev) and not checked(ev), {'sig', 'found', 'addr', 'dec'}), ('proof called good by its signature', lambda ev: good(ev) and checked(ev), {'found', 'addr', 'dec'})], min_sites=0)
    gs = run(Hits(E, pjk, good), fn).hits
    c.check(bool(gs), 'R7', 'a proof can be called good', where(fn), construct='good in ' + fn.qn)
    c.each('R7', 'every entry is verified before the proof is called good', fn, pjk, proofs, done_br=lambda a, p, ev: ring(a, p, ev), exits=lambda k, r_: False, some=True)

    class Fail(Seq):
        pass

    def fon(s, ev):
        if good(ev):
            return s, bool(s)
        return s, False
    fbr = lambda s, a, p: 1 if any(truth_of(a, p, x) == 0 for x in ('check_tx_proof', 'check_ring_signature', 'check_signature')) else s
    r = run(Fail(E, pjk, on=fon, br=fbr), fn)
    c.check(not r.bad, 'R7', 'a failed check never ends as a good proof', at(r.bad[0]) if r.bad else where(fn), construct='failed checks in ' + fn.qn)
