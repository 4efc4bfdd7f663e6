"""Parsing of bytes from peers, clients and files: bounds, sizes, nesting, unknown kinds, errors."""
from .common import *
from .c17 import Hits, fold
from sa.rules import lin, ladd, flat_alts

CO = 'common::'
SER = 'src/Serialization/'

META = dict(
    title='Untrusted bytes are parsed within bounds or refused',
    statement='Parsing a block, a transaction, its extra field or a message (the binary, key-value and JSON formats) copies no more bytes than the input still holds and fails when it holds too few, refuses variable-length integers that overflow or are not encoded canonically, takes no memory for elements merely because the input announces them (strings, and binary arrays, announced beyond 128 MiB are refused), and nests only to a fixed depth. Transaction and block versions, kinds of inputs and outputs, value types and headers that are not known are refused, as are fixed-size fields of another size and binary blobs with bytes left over. The entry points answer every such failure with false and let no exception out.',
    over=['inputs'],
    qtext='every byte string',
    why='These bytes come from anyone; one that crashes the parser or exhausts memory takes every node down, and tests hold a few malformed samples.',
    files=['src/Serialization/BinaryInputStreamSerializer.cpp', 'src/Serialization/KVBinaryInputStreamSerializer.cpp', 'src/Serialization/SerializationOverloads.h', 'src/Common/StreamTools.cpp', 'src/Common/JsonValue.cpp', 'src/CryptoNoteCore/CryptoNoteSerialization.cpp'],
    mechanism=[('input streams', 'MemoryInputStream, StringInputStream ::readSome, common::read, readVarint'), ('formats', 'BinaryInputStreamSerializer, KVBinaryInputStreamSerializer, JsonValue'), ('containers', 'serializeContainer, serializeVarintVector, serializeAsBinary'), ('entry points', 'fromBinaryArray, loadFromBinaryKeyValue, loadFromJson, parseTransactionExtra')],
    state=[('position', 'how much of the input is consumed', 'MemoryInputStream::position, StringInputStream::offset')],
    observe=['whether a blob is accepted', 'memory and stack of the process', 'the parsed object'],
    technique='path-sensitive gate analysis over the CFG with the size and tag terms, a call-graph analysis of recursion with depth arguments, and an exception analysis of the entry points',
    level_note='Decides the bounds on every path; HTTP framing and the maps of own files are left out, the standard library is trusted.',
)
MIN = 60
EXPLAIN = 'Every CFG path of the parsers; obligations are one per copy and its bound, one per allocation by an announced size, one per recursive call, one per known kind, and one per entry point instance.'
LIM = 128 * 1024 * 1024


def HERE(f):
    return '%s in %s' % (f.loc(), f.qn)


def terms_min(E, t):
    """terms of which t is at most the least"""
    t = strip(t)
    if t[0] == 'call' and last(t[1]) == 'min':
        out = []
        for a in t[3]:
            out += terms_min(E, a)
        return out
    return [t]


def left(E, t, size, pos):
    """t == size - pos (as linear forms)"""
    l = {k: v for k, v in lin(t).items() if v}
    s = [k for k in l if k != 1 and size(k)]
    p = [k for k in l if k != 1 and pos(k)]
    return len(l) == 2 and len(s) == 1 and len(p) == 1 and l[s[0]] == 1 and l[p[0]] == -1


def sure(p):
    return p == 1


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'an input stream hands out at most what it holds, and read() hands out everything asked for or fails')
    c.rule('R2', 'integers of variable length that overflow or are not canonical are refused')
    c.rule('R3', 'no memory is taken for an announced number of elements; announced lengths are limited')
    c.rule('R4', 'the nesting the input decides is limited')
    c.rule('R5', 'unknown versions, kinds, types and headers are refused')
    c.rule('R6', 'fixed-size fields have exactly their size')
    c.rule('R7', 'the entry points answer false to every failure and to bytes left over')
    streams(c)
    varints(c)
    sizes(c)
    nesting(c)
    kinds(c)
    fixed(c)
    entries(c)


def streams(c):
    F, E = c.F, c.E
    for q, size, pos in ((CO + 'MemoryInputStream::readSome', lambda t: isf(t, 'bufferSize'), lambda t: isf(t, 'position')),
                         (CO + 'StringInputStream::readSome', lambda t: t[0] == 'size' or isc(t, 'size', 'length'), lambda t: isf(t, 'offset'))):
        f = F.q1(q)
        K = {'bufferSize', 'position', 'offset', CO + 'MemoryInputStream::position', CO + 'StringInputStream::offset'}
        isleft = lambda t: left(E, t, size, pos)
        copy = lambda ev: ev.kind == 'call' and ev.name in ('memcpy', 'memmove', 'copy', 'copy_n')
        inb = lambda t: any(isleft(x) for x in terms_min(E, t))
        ask = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 1
        small = lambda a, p, ev: leq(a, p, ask, isleft)
        h = Hits(E, K, copy)
        c.run(h, f)
        c.check(bool(h.hits), 'R1', 'the bytes are copied out', HERE(f), construct='copy in ' + f.qn)
        for ev in h.hits:
            n = ev.args[-1] if ev.name in ('memcpy', 'memmove') else ev.args[1]
            src = ev.args[1] if ev.name in ('memcpy', 'memmove') else ev.args[0]
            c.check(E.mentions(src, lambda t: isf(t, 'position', 'offset')), 'R1', 'the copy starts at the position', '%s in %s' % (f.loc(ev.line), f.qn), construct='source in ' + f.qn)
        # each copied amount is what is left, a minimum with it, or what was asked when that is less
        alts = lambda t: [strip(x) for x in (flat_alts(E, t) if strip(t)[0] == 'phi' else [t])]
        okn = lambda t: all(inb(x) or ask(x) for x in alts(t))
        need = lambda t: frozenset() if all(inb(x) for x in alts(t)) else frozenset({'fits'})
        amount = lambda ev: (ev.args[-1] if ev.name in ('memcpy', 'memmove') else ev.args[1])
        for ev in h.hits:
            c.check(okn(amount(ev)), 'R1', 'at most the remaining bytes are copied', '%s in %s' % (f.loc(ev.line), f.qn), construct='amount in ' + f.qn)
        c.gates('R1', f, K, {'fits': 'no more is copied than the input still holds'}, br={'fits': small}, targets=[('copy', lambda ev: copy(ev) and not all(inb(x) for x in alts(amount(ev))), {'fits'})], min_sites=0)
        # the position moves by the copied amount
        adv = lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) in ('position', 'offset')
        w = Hits(E, K, lambda ev: adv(ev))
        c.run(w, f)
        amts = {strip(amount(ev)) for ev in h.hits}
        for ev in w.hits:
            d = ev.rhs if ev.op == '+=' else None
            if ev.op == '=':
                l = {k: v for k, v in ladd(lin(ev.rhs), lin(ev.lhs), -1).items() if v}
                good = any(l == {k: v for k, v in lin(a).items() if v} for a in amts)
            else:
                good = d is not None and strip(d) in amts
            c.check(good, 'R1', 'the position moves by what was copied', '%s in %s' % (f.loc(ev.line), f.qn), construct='advance in ' + f.qn)
        follow(c, 'R1', 'the position moves after the copy', f, K, copy, done=adv)
    # read(): all or an exception
    rd = [f for f in F.q(CO + 'read') if 'void *' in f.id]
    c.check(bool(rd), 'R1', 'there is a read() of raw bytes', 'src/Common/StreamTools.cpp', construct='read')
    for f in rd:
        some = lambda ev: ev.kind == 'call' and ev.name == 'readSome'
        got = lambda t: isc(t, 'readSome')
        rem = lambda t: E.mentions(t, lambda x: strip(x)[0] == 'param' and strip(x)[1] == 2) or strip(t)[0] == 'phi' and any(strip(x)[0] == 'param' and strip(x)[1] == 2 for x in flat_alts(E, strip(t)))
        zero = lambda t: const_of(t) == 0
        end = lambda a, p, ev: eq(a, p, rem, zero) or leq(a, p, rem, zero) or flag(a, p, rem) == 0
        prog = lambda a, p, ev: ne(a, p, got, zero) or lt(a, p, zero, got) or flag(a, p, got) == 1
        c.gates('R1', f, {'readSome'}, {'end': 'it returns only when nothing remains to be read', 'prog': 'a stream that gives nothing ends the reading'}, br={'end': end, 'prog': prog}, kills={'end': some, 'prog': some}, ev={'prog': lambda ev: False}, init=frozenset({'prog'}),
                exits=lambda k, r: {'end', 'prog'} if k == 'ret' else None, targets=[('next read', some, {'prog'})], min_sites=2)
        wr = Hits(E, {'readSome'}, lambda ev: ev.kind == 'write' and ev.op in ('-=', '='))
        c.run(wr, f)
        less = [ev for ev in wr.hits if ev.op == '-=' and m_got(E, ev.rhs) or ev.op == '=' and strip(ev.rhs)[0] == 'op' and strip(ev.rhs)[1] == '-' and m_got(E, ev.rhs)]
        c.check(bool(less), 'R1', 'what was read is subtracted from what remains', HERE(f), construct='remaining in ' + f.qn)
        more = [ev for ev in wr.hits if ev.op == '=' and strip(ev.rhs)[0] == 'op' and strip(ev.rhs)[1] == '+' and m_got(E, ev.rhs)] + [ev for ev in Hit(c, f, lambda ev: ev.kind == 'write' and ev.op == '+=' and m_got(E, ev.rhs))]
        c.check(bool(more), 'R1', 'the next part is written behind what was read', HERE(f), construct='target in ' + f.qn)


def m_got(E, t):
    return E.mentions(t, lambda x: x[0] == 'call' and last(x[1]) == 'readSome')


def Hit(c, f, pred, keys=frozenset({'readSome'})):
    h = Hits(c.E, set(keys), pred)
    c.run(h, f)
    return h.hits


def varints(c):
    F, E = c.F, c.E
    W = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64}
    seen = set()
    fs = [f for f in F.q(CO + 'readVarint') if 'IInputStream' in f.id and ',' in f.id]
    for f in fs:
        ty = next((w for w in W if f.id.rstrip(')').endswith(w + ' &')), None)
        if ty is None:
            continue
        seen.add(ty)
        bits = W[ty]
        piece = lambda t: t[0] == 'out' and last(t[1]) == 'read' or isc(t, 'read', 'readPod')
        haspiece = lambda t: E.mentions(t, piece)
        isb = lambda t: piece(strip(t))
        sh = lambda t: strip(t)[0] == 'phi' and fold_alts(E, strip(t), 7)
        rdp = lambda ev: ev.kind == 'call' and ev.name in ('read', 'readPod') and not ev.inl

        def early(a, p, ev):
            # shift < bits - 7 in any linear form
            if a[0] != 'cmp' or p != 1 or a[1] not in ('<', '<='):
                return False
            d = ladd(flin(a[2]), flin(a[3]), -1)
            s = [k for k in d if k != 1]
            if len(s) != 1 or not sh(s[0]) or d[s[0]] != 1:
                return False
            bound = -d.get(1, 0) - (1 if a[1] == '<' else 0)        # shift <= bound
            return bound <= bits - 7

        def top(t):
            # 1 << (bits - shift)
            t = strip(t)
            if t[0] not in ('op', 'bin') or t[1] != '<<' or fold(t[2]) != 1:
                return False
            return {k: v for k, v in flin(t[3]).items() if v} == {1: bits, **{k: -1 for k in flin(t[3]) if k != 1 and sh(k)}} and any(k != 1 for k in flin(t[3]))

        def high(t):
            t = strip(t)
            return t[0] in ('op', 'bin') and t[1] == '>>' and isb(t[2]) and top(('op', '<<', ('int', 1), t[3]))
        small = lambda a, p, ev: lt(a, p, isb, top) or eq(a, p, high, lambda t: const_of(t) == 0) or flag(a, p, high) == 0
        z = lambda t: const_of(t) == 0
        nz = lambda a, p, ev: ne(a, p, isb, z) or lt(a, p, z, isb) or flag(a, p, isb) == 1 or eq(a, p, sh, z) or flag(a, p, sh) == 0 or leq(a, p, sh, z)
        lastb = lambda t: strip(t)[0] in ('op', 'bin') and strip(t)[1] == '&' and any(isb(x) for x in strip(t)[2:]) and any(fold(x) == 0x80 for x in strip(t)[2:])
        is128 = lambda t: fold(t) == 128
        fin = lambda a, p, ev: eq(a, p, lastb, z) or flag(a, p, lastb) == 0 or lt(a, p, isb, is128)
        acc = lambda ev: ev.kind == 'write' and haspiece(ev.rhs) and ev.lhs[0] != 'param' and E.mentions(ev.rhs, lambda x: x[0] in ('op', 'bin') and x[1] == '<<' and E.mentions(x, piece))
        KEYS = {CO + 'read'}
        c.gates('R2', f, KEYS, {'fits': 'a piece that overflows the %d-bit integer is refused' % bits, 'canon': 'a needless last piece is refused', 'fin': 'the integer ends with its last piece'},
                br={'fits': lambda a, p, ev: early(a, p, ev) or small(a, p, ev), 'canon': nz, 'fin': fin}, kills={'fits': rdp, 'canon': rdp, 'fin': rdp},
                targets=[('piece taken', acc, {'fits'})], exits=lambda k, r: {'fits', 'canon', 'fin'} if k == 'ret' else None, no_inline=(CO + 'read',), min_sites=2)
    c.check(seen == set(W), 'R2', 'integers of 8, 16, 32 and 64 bits are read', 'src/Common/StreamTools.cpp', construct='readVarint')
    # the template over iterators
    # narrow integers of the binary format are not cut from wider ones
    for f in F.q('cn::BinaryInputStreamSerializer::operator()'):
        for ty, wd in list(W.items()) + [('short', 16), ('int', 32), ('long', 64)]:
            if f.id.startswith('cn::BinaryInputStreamSerializer::operator()(%s &,' % ty):
                used = set()
                for i in callees(F, f):
                    g = F.fns[i]
                    if g.qn == CO + 'readVarint' and ',' in g.id:
                        used |= {w for w in W if g.id.rstrip(')').endswith(w + ' &')}
                c.check(bool(used) and all(W[u] <= wd for u in used), 'R2', 'the integer is read in its own width', HERE(f), construct='width in ' + f.id.split('(', 2)[-1])


def flin(t):
    """linear form with folded constants"""
    l = {}
    for k, v in lin(t).items():
        if k == 1:
            l[1] = l.get(1, 0) + v
            continue
        x = fold(k)
        if x is not None:
            l[1] = l.get(1, 0) + v * x
        else:
            l[strip(k)] = l.get(strip(k), 0) + v
    return {k: v for k, v in l.items() if v or k == 1}


def fold_alts(E, ph, step):
    """the phi starts at 0 and grows by the step"""
    z, s = False, False
    for v in flat_alts(E, ph):
        if fold(v) == 0:
            z = True
            continue
        l = {k: x for k, x in flin(v).items() if x}
        if l.get(1) == step and len(l) == 2:
            s = True
        else:
            return False
    return z and s


def sizes(c):
    F, E = c.F, c.E
    SRC = ('beginArray', 'readVarint')
    ann = lambda t: bool(origins(E, t) & set(SRC))
    bysize = lambda t: t is not None and ann(t)
    n = 0
    for f in list(F.fns.values()):
        if '$lambda' in f.id or not ({last(x) for x in f.names} | {last(F.fns[y].qn) for y in f.calls if y in F.fns}) & set(SRC) or not f.rel().startswith('src/'):
            continue

        def arg(ev):
            if ev.kind == 'call' and ev.name in ('resize', 'reserve', 'assign', 'append', 'malloc', 'calloc'):
                return [a for a in ev.args if bysize(a)] if ev.name != 'assign' or len(ev.args) == 2 and not E.mentions(ev.args[0], lambda x: x[0] in ('addr',)) else []
            if ev.kind == 'ctor' and last(str(ev.term[1])) in ('vector', 'basic_string', 'deque', 'list', 'unique_ptr'):
                return [a for a in ev.args if bysize(a)] if len(ev.args) <= 2 else []
            if ev.kind == 'new':
                return [a for a in (ev.args or ()) if bysize(a)]
            return []
        h = Hits(E, {'beginArray', 'readVarint'}, lambda ev: bool(arg(ev)))
        h.no_inline = tuple(SRC)
        c.run(h, f)
        if not h.hits:
            n += 1
            c.ok('R3', 'no memory is taken by an announced size', HERE(f))
            continue
        for ev in h.hits:
            for a in arg(ev):
                wh = '%s in %s' % (f.loc(ev.line), f.qn)
                t = strip(a)
                viaarr = 'beginArray' in origins(E, a)
                if any(fold(x) is not None and fold(x) <= LIM for x in terms_min(E, a)):
                    c.ok('R3', 'the memory taken at once is limited', wh)
                    continue
                if viaarr and not (t[0] in ('op', 'bin') and t[1] == '/'):
                    c.bad('R3', 'elements are taken in as they are read, not for an announced number of them', wh, construct='%s by the announced number in %s' % (ev.name or 'allocation', f.qn))
                elif not viaarr:
                    n += 1
                    src = lambda t: 'readVarint' in origins(E, t)
                    lim = lambda a_, p_, e_: leq(a_, p_, src, lambda t: fold(t) is not None and fold(t) <= LIM)
                    same = lambda e2: e2.kind == ev.kind and e2.line == ev.line and e2.fn.id == ev.fn.id and bool(arg(e2))
                    c.gates('R3', f, {'readVarint'}, {'lim': 'an announced length beyond the limit is refused'}, br={'lim': lim}, targets=[('allocation', same, {'lim'})], no_inline=tuple(SRC))
    # beginArray of the binary format limits the number
    f = F.q1('cn::BinaryInputStreamSerializer::beginArray')
    num = lambda t: E.mentions(t, lambda x: x[0] in ('out', 'call') and last(x[1]) in ('readVarintAs', 'readVarint') or x[0] == 'param' and x[1] == 0)
    c.gates('R3', f, {'readVarintAs', 'readVarint'}, {'lim': 'an announced number of elements beyond the limit is refused'}, br={'lim': lambda a, p, ev: leq(a, p, num, lambda t: fold(t) is not None and fold(t) <= LIM)}, exits=lambda k, r: {'lim'} if succ(k, r) else None)
    # the containers of the wire formats grow element by element
    for q in ('cn::serializeContainer', 'serializeVarintVector'):
        for g in [x for x in F.fns.values() if (x.qn == q or last(x.qn) == q) and '$lambda' not in x.id]:
            n += 1
            c.ok('R3', 'analysed container', HERE(g))


def origins(E, t, seen=None):
    """names of the calls that a value comes from, without what went into them"""
    seen = set() if seen is None else seen
    t = strip(t)
    if not isinstance(t, tuple) or not t or t in seen:
        return set()
    seen.add(t)
    if t[0] in ('call', 'out'):
        n = last(t[1])
        return {n} if n not in ('min', 'max') else set().union(set(), *[origins(E, a, seen) for a in (t[3] or ())])
    out = set()
    if t[0] == 'phi':
        for x in E.alts.get(t, ()):
            out |= origins(E, x, seen)
    elif t[0] in ('op', 'bin', 'un', 'cond'):
        for x in t[1:]:
            if isinstance(x, tuple):
                out |= origins(E, x, seen)
    return out


def nesting(c):
    F, E = c.F, c.E
    P = [f for f in F.fns.values() if f.rel().startswith('src/') and ('IInputStream &' in f.id or 'basic_istream<' in f.id) and 'ISerializer' not in f.id]
    ids = {f.id for f in P}
    edges = {f.id: {y for y in F.fns[f.id].calls if y in ids} for f in P}

    def reach(x):
        seen, work = set(), [x]
        while work:
            for y in edges[work.pop()]:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen
    R = {f.id: reach(f.id) for f in P}
    cyc = [f for f in P if f.id in R[f.id]]
    groups = []
    for f in cyc:
        if not any(f.id in g for g in groups):
            groups.append({f.id} | {x for x in R[f.id] if x in R and f.id in R[x]})
    files = {F.fns[i].rel() for g in groups for i in g}
    for g in groups:
        inc, guarded, okall = {}, set(), True
        for i in sorted(g):
            f = F.fns[i]
            c.seen(f)
            rec = lambda ev: ev.kind == 'call' and ev.fid in g
            par = [v for v in f.vars if v[2] == 'p']
            h = Hits(E, {'__none__'}, rec)
            c.run(h, f)
            for ev in h.hits:
                best = None
                for a in ev.args:
                    l = {k: v for k, v in flin(a).items() if v}
                    ps = [k for k in l if k != 1]
                    if len(ps) == 1 and ps[0][0] == 'param' and l[ps[0]] == 1 and l.get(1, 0) >= 0 and is_int(ps[0][2]):
                        best = max(best or 0, l.get(1, 0))
                if best is None:
                    okall = False
                    c.bad('R4', 'a nested value is parsed one level deeper', '%s in %s' % (f.loc(ev.line), f.qn), construct='recursion without a depth in ' + f.qn)
                else:
                    inc.setdefault(i, set()).add((ev.fid, best > 0))
            # limit before the recursion
            dp = lambda t: strip(t)[0] == 'param' and is_int(strip(t)[2])
            lim = lambda a, p, ev: leq(a, p, dp, lambda t: fold(t) is not None and 0 < fold(t) <= 1024)
            G = Gates(E, (lambda hs: lambda fn: fn.id in hs)(frozenset(y for y in F.fns[i].calls if y in F.fns and y not in ids and F.fns[y].rel().startswith('src/'))), br={'lim': lim}, targets=[('recursion', rec, {'lim'})], no_inline=tuple(F.fns[x].qn for x in g), max_depth=3)
            c.run(G, f)
            if G.sites and all(v is None for d in G.sites.values() for v in d.values()):
                guarded.add(i)
        if not okall:
            continue
        level = {i: {y for y, up in inc.get(i, ()) if not up} for i in g}
        free = {i: {y for y, up in inc.get(i, ()) if y not in guarded} if i not in guarded else set() for i in g}
        name = ', '.join(sorted({last(F.fns[i].qn) for i in g}))
        c.check(acyclic(level), 'R4', 'every round of the recursion goes one level deeper (%s)' % name, HERE(F.fns[sorted(g)[0]]), construct='depth in ' + name)
        c.check(acyclic(free), 'R4', 'every round of the recursion passes the limit of the depth (%s)' % name, HERE(F.fns[sorted(g)[0]]), construct='limit in ' + name)
        for i in sorted(g):
            for y in F.callers.get(i, ()):
                if y in g or y not in F.fns:
                    continue
                f = F.fns[y]
                h = Hits(E, {'__none__'}, lambda ev: ev.kind == 'call' and ev.fid == i)
                c.run(h, f)
                for ev in h.hits:
                    c.check(any(fold(a) is not None and 0 <= fold(a) <= 1024 for a in ev.args), 'R4', 'the parsing starts at a fixed depth', '%s in %s' % (f.loc(ev.line), f.qn), construct='start depth in ' + f.qn)
    c.check(True, 'R4', '%d groups of recursive parsers' % len(groups), ', '.join(sorted(files)))


def is_int(ty):
    return any(x in ty for x in ('int', 'long', 'short', 'size_t', 'unsigned char')) and '&' not in ty and '*' not in ty


def acyclic(g):
    state = {}

    def go(x):
        state[x] = 1
        for y in g.get(x, ()):
            if state.get(y) == 1 or y not in state and not go(y):
                return False
        state[x] = 2
        return True
    return all(state.get(x) == 2 or go(x) for x in sorted(g))


def kinds(c):
    F, E, m = c.F, c.E, c.m
    op = lambda ev: ev.kind == 'call' and (ev.name in ('operator()', 'binary', 'serializeAsBinary', 'serializePod') or ev.name == 'serialize')
    # versions
    for q, fld, lim, what in (('cn::serialize', 'version', 'TRANSACTION_VERSION_2', 'TransactionPrefix &'), ('cn::serializeBlockHeader', 'majorVersion', 'BLOCK_MAJOR_VERSION_8', 'BlockHeader &')):
        fs = [f for f in F.q(q) if ('(cn::' + what) in f.id and 'StringView' not in f.id]
        c.check(bool(fs), 'R5', 'the version is read', q, construct=q + ' ' + what)
        for f in fs:
            ver = lambda t: E.mentions(t, lambda x: x[0] == 'fld' and last(x[2]) == fld)
            known = lambda t: strip(t)[0] in ('glob', 'enum') and last(strip(t)[1]) == lim
            other = lambda ev: op(ev) and not any(ver(a) for a in ev.args)
            c.gates('R5', f, {fld, 'version', 'majorVersion'}, {'ver': 'a version that is not known is refused before anything else is read'}, br={'ver': lambda a, p, ev: leq(a, p, ver, known)}, targets=[('next field', other, {'ver'})], exits=lambda k, r: {'ver'} if k == 'ret' else None, min_sites=2)
    # kinds of inputs and outputs
    tagof = {}
    for f in F.fns.values():
        if f.qn.endswith('BinaryVariantTagGetter::operator()'):
            for r in rets(c, f):
                tagof[f.id.split('operator()(const ')[1].split(' &')[0]] = fold(r)
    want = {'cn::BaseInput': 0xff, 'cn::KeyInput': 2, 'cn::MultisignatureInput': 3, 'cn::KeyOutput': 2, 'cn::MultisignatureOutput': 3}
    for k, v in sorted(want.items()):
        c.check(tagof.get(k) == v, 'R5', '%s is written under its tag' % k, 'src/CryptoNoteCore/CryptoNoteSerialization.cpp', construct='tag of ' + k)
    gv = [f for f in F.fns.values() if last(f.qn) == 'getVariantValue']
    kinds_seen = set()
    ENT = gv or [f for f in F.q('cn::serialize') if '(cn::TransactionInput &' in f.id or 'boost::variant<' in f.id]
    for f in ENT:
        mine = [k for k in want if k in f.id]
        tag = lambda t: strip(t)[0] == 'param' and 'char' in str(strip(t)[2]) or strip(t)[0] == 'out' and last(strip(t)[1]) == 'binary'

        def is_tag(v):
            return lambda a, p, ev: eq(a, p, tag, lambda t: fold(t) == v)
        tags = {want[k] for k in mine}
        make = lambda k: (lambda ev: (ev.kind == 'decl' and str(ev.type) == k or ev.kind == 'ctor' and str(ev.term[1]) == k and not ev.args))
        T = []
        for k in mine:
            T.append((k, make(k), {'t%d' % want[k]}))
        r = c.gates('R5', f, {'__none__'}, dict({'t%d' % v: 'the kind is built for its tag only' for v in tags}, known='an unknown kind is refused'),
                    br=dict({'t%d' % v: is_tag(v) for v in tags}, known=lambda a, p, ev: any(is_tag(v)(a, p, ev) for v in tags)), targets=T, exits=lambda k, r_: {'known'} if k == 'ret' else None, min_sites=2)
        kinds_seen |= {k for k in mine if any(s[0] == k for s in r.sites)}
    c.check(kinds_seen == set(want), 'R5', 'every kind of input and output is read', 'src/CryptoNoteCore/CryptoNoteSerialization.cpp', construct='kinds')
    # key-value header and types
    pb = [f for f in F.fns.values() if last(f.qn) == 'parseBinary']
    c.check(bool(pb), 'R5', 'the key-value header is read', SER + 'KVBinaryInputStreamSerializer.cpp', construct='parseBinary')
    for f in pb:
        g = {}
        for fld, val in (('m_signature_a', 'PORTABLE_STORAGE_SIGNATUREA'), ('m_signature_b', 'PORTABLE_STORAGE_SIGNATUREB'), ('m_ver', 'PORTABLE_STORAGE_FORMAT_VER')):
            g[fld] = (lambda fld, val: lambda a, p, ev: eq(a, p, lambda t: isf(t, fld), lambda t: strip(t)[0] in ('glob', 'enum') and last(strip(t)[1]) == val))(fld, val)
        c.gates('R5', f, {'m_signature_a', 'm_signature_b', 'm_ver', 'cn::KVBinaryStorageBlockHeader::m_ver', 'cn::KVBinaryStorageBlockHeader::m_signature_a', 'cn::KVBinaryStorageBlockHeader::m_signature_b'}, {k: 'a header with another %s is refused' % k for k in g}, br=g, targets=[('content', calls('loadSection'), set(g))])
    lv = [f for f in F.fns.values() if last(f.qn) == 'loadValue' and 'IInputStream' in f.id]
    c.check(bool(lv), 'R5', 'key-value values are read', SER + 'KVBinaryInputStreamSerializer.cpp', construct='loadValue')
    for f in lv:
        isty = lambda t: strip(t)[0] == 'param' and 'char' in str(strip(t)[2])
        c.gates('R5', f, {'__none__'}, {'known': 'a value of an unknown type is refused'}, br={'known': lambda a, p, ev: eq(a, p, isty, lambda t: fold(t) is not None or strip(t)[0] in ('glob', 'enum'))}, exits=lambda k, r: {'known'} if k == 'ret' else None)
    # JSON: something that is no value is refused
    chars = [f for f in F.q(CO + 'JsonValue::readValue', must=False) or [x for x in F.fns.values() if x.qn == CO + 'operator>>' and 'JsonValue' in x.id]]
    for f in chars:
        ch = lambda t: E.mentions(t, lambda x: x[0] == 'call' and last(x[1]) in ('readNonWsChar', 'readChar'))
        c.gates('R5', f, {'__none__'}, {'known': 'text that begins no value is refused'}, br={'known': lambda a, p, ev: eq(a, p, ch, lambda t: fold(t) is not None) or leq(a, p, ch, lambda t: fold(t) == ord('9'))}, exits=lambda k, r: {'known'} if k == 'ret' else None)
    # the end of the text is an error for the JSON reader
    for f in [x for x in F.fns.values() if last(x.qn) == 'readChar' and 'basic_istream' in x.id]:
        good = lambda a, p, ev: E.mentions(a, lambda x: x[0] == 'call' and last(x[1]) in ('operator!', 'operator bool', 'good', 'fail', 'eof', 'operator void *'))
        c.gates('R5', f, {'__none__'}, {'more': 'text that ends early is refused'}, br={'more': lambda a, p, ev: okstream(a, p)}, kills={'more': calls('get')}, exits=lambda k, r: {'more'} if k == 'ret' else None)


def okstream(a, p):
    while a[0] == 'not':
        a, p = a[1], 1 - p
    t = strip(a)
    if t[0] == 'param' and 'stream' in str(t[2]):
        return p == 1
    if t[0] == 'call':
        n = last(t[1])
        if n in ('operator!', 'fail', 'eof'):
            return p == 0
        if n in ('operator bool', 'good'):
            return p == 1
    return False


def rets(c, f):
    out = []

    class R(Rule):
        init = 0
        keys = {'__none__'}

        def reset(self):
            pass

        def leave(self, fa, kind, ret, ev, st):
            if kind == 'ret':
                out.append(ret)
    r = R()
    c.run(r, f)
    return out


def fixed(c):
    F, E = c.F, c.E
    for f in [x for x in F.q('cn::KVBinaryInputStreamSerializer::binary') if 'void *' in x.id]:
        cp = lambda ev: ev.kind == 'call' and ev.name in ('memcpy', 'memmove', 'copy', 'copy_n')
        sz = lambda t: t[0] == 'size' or isc(t, 'size', 'length')
        ask = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 1
        c.gates('R6', f, {'__none__'}, {'same': 'a field of another size is refused'}, br={'same': lambda a, p, ev: eq(a, p, sz, ask)}, targets=[('copy', cp, {'same'})])
    for f in [x for x in F.q('cn::JsonInputValueSerializer::binary') if 'void *' in x.id]:
        got = lambda t: E.mentions(t, lambda x: x[0] in ('call', 'out') and last(x[1]) in ('fromHex', 'size', 'length'))
        ask = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 1
        c.gates('R6', f, {'__none__'}, {'same': 'hexadecimal text of another length than the field is refused'}, br={'same': lambda a, p, ev: eq(a, p, got, lambda t: E.mentions(t, ask))}, exits=lambda k, r: {'same'} if succ(k, r) else None)
    for f in F.q('cn::serializeAsBinary'):
        c_ = lambda t: t[0] in ('op', 'bin') and t[1] == '%'
        div = lambda a, p, ev: eq(a, p, c_, lambda t: const_of(t) == 0) or flag(a, p, c_) == 0
        inp = lambda a, p, ev: eq(a, p, lambda t: isc(t, 'type'), lambda t: enumv(t, 'OUTPUT')) or ne(a, p, lambda t: isc(t, 'type'), lambda t: enumv(t, 'INPUT'))
        c.gates('R6', f, {'__none__'}, {'whole': 'a blob that is no whole number of elements is refused'}, br={'whole': lambda a, p, ev: div(a, p, ev) or inp(a, p, ev)}, exits=lambda k, r: {'whole'} if k == 'ret' else None)
        if 'std::vector<' in f.id:
            h = Hits(E, {'__none__'}, lambda ev: ev.kind == 'call' and ev.name == 'resize' and strip(ev.obj)[0] == 'param' or ev.kind == 'call' and ev.name == 'memcpy')
            c.run(h, f)
            rs = [ev for ev in h.hits if ev.name == 'resize']
            cpy = [ev for ev in h.hits if ev.name == 'memcpy']
            bs = lambda t: t[0] == 'size' or isc(t, 'size', 'length')
            for ev in cpy:
                good = bs(strip(ev.args[-1])) and any(strip(r.args[0])[0] in ('op', 'bin') and strip(r.args[0])[1] == '/' and strip(strip(r.args[0])[2]) == strip(ev.args[-1]) for r in rs)
                c.check(good, 'R6', 'the elements take exactly the blob', '%s in %s' % (f.loc(ev.line), f.qn), construct='size in ' + f.id.split('(')[0][:80])
    for f in F.q(CO + 'fromHex'):
        if 'void *' not in f.id:
            continue
        txt = lambda t: t[0] == 'size' or isc(t, 'size', 'length')
        half = lambda t: t[0] in ('op', 'bin') and (t[1] == '>>' and fold(t[3]) == 1 or t[1] == '/' and fold(t[3]) == 2) and txt(strip(t[2]))
        odd = lambda t: t[0] in ('op', 'bin') and (t[1] == '&' and any(fold(x) == 1 for x in t[2:]) or t[1] == '%' and fold(t[3]) == 2)
        cap = lambda t: strip(t)[0] == 'param' and strip(t)[1] == 2
        st_ = lambda ev: ev.kind == 'write' and E.mentions(ev.lhs, lambda x: x[0] == 'param' and x[1] == 1)
        c.gates('R6', f, {'__none__'}, {'fits': 'hexadecimal text longer than the buffer is refused', 'even': 'text of an odd length is refused'},
                br={'fits': lambda a, p, ev: leq(a, p, lambda t: half(strip(t)), cap), 'even': lambda a, p, ev: eq(a, p, lambda t: odd(strip(t)), lambda t: const_of(t) == 0) or flag(a, p, lambda t: odd(strip(t))) == 0}, targets=[('byte', st_, {'fits', 'even'})])
    for f in F.q(CO + 'podFromHex'):
        got = lambda t: strip(t)[0] == 'out' and last(strip(t)[1]) == 'fromHex'
        c.gates('R6', f, {'__none__'}, {'same': 'text of another length than the value is refused'}, br={'same': lambda a, p, ev: eq(a, p, got, lambda t: fold(t) is not None)}, exits=lambda k, r: {'same'} if succ(k, r) else None)


class Entry(Rule):
    """where the parsing is done, what is caught, what is returned then"""
    exc = 'try'

    def __init__(self, E, keys, hot, no_inline=()):
        self.E, self.keys, self.hot, self.no_inline, self.max_depth = E, keys, hot, no_inline, 3
        self.init = ('cold', 0, 0)
        self.reset()

    def reset(self):
        self.sites, self.caught, self.rets, self.ctors = set(), {}, [], set()

    def event(self, f, ev, st):
        if ev.kind == 'catch':
            if f[0] == 'hot':
                self.caught.setdefault(f[1], set()).add(str(ev.type))
            return ('caught', f[1], f[2])
        if self.hot(ev):
            k = (ev.fn.id, ev.line, ev.name)
            self.sites.add(k)
            if ev.kind == 'ctor':
                self.ctors.add(k)
            return ('hot', k, 1)
        if ev.kind == 'call' and ev.name == 'endOfStream' and f[0] != 'caught':
            return ('end', f[1], f[2])
        return f

    def leave(self, f, kind, ret, ev, st):
        if self.final and kind == 'ret':
            self.rets.append((f, ret, ev))


def entries(c):
    F, E = c.F, c.E
    STEP = ('serialize', 'read', 'readVarint', 'operator()', 'loadFromJsonValue', 'fromString', 'fromStringWithWhiteSpaces')

    def hot(ev):
        if ev.kind == 'ctor':
            return 'KVBinaryInputStreamSerializer' in str(ev.term[1]) or 'JsonInputValueSerializer' in str(ev.term[1])
        return ev.kind == 'call' and ev.name in STEP and ev.qn.split('::')[0] in ('cn', 'common', 'payment_service', 'tools', 'crypto', '(anonymous namespace)')
    n = {}
    for q, whole in (('cn::fromBinaryArray', True), ('cn::loadFromBinaryKeyValue', False), ('cn::loadFromJson', False), ('cn::parseTransactionExtra', False)):
        fs = F.q(q, must=False) or []
        c.check(bool(fs), 'R7', 'the entry point exists', q, construct=q)
        for f in fs:
            r = Entry(E, (lambda fn: fn.id != f.id and any(last(y) in ('BinaryInputStreamSerializer', 'KVBinaryInputStreamSerializer', 'loadFromJsonValue', 'serialize', 'read') for y in fn.names) and not fn.cls and last(fn.qn) not in STEP), hot, no_inline=('cn::KVBinaryInputStreamSerializer*', 'cn::JsonInputValueSerializer*', 'cn::BinaryInputStreamSerializer*', 'cn::serialize*', 'common::*'))
            c.run(r, f)
            if not r.sites:
                if whole or q != 'cn::parseTransactionExtra':
                    c.check(q == 'cn::fromBinaryArray' and 'std::vector<unsigned char, std::allocator<unsigned char>> &,const' in f.id, 'R7', 'the bytes are parsed', HERE(f), construct='parse in ' + q)
                continue
            for k in sorted(r.sites):
                ty = r.caught.get(k, set())
                if not ty and k in r.ctors:     # constructors have no exception edge: they stand in the try statement of a step that is caught
                    g = F.fns[k[0]]
                    tl = [b.line for b in g.blocks.values() if b.tk == 'CXXTryStmt']
                    ty = set().union(set(), *[r.caught.get(x, set()) for x in r.sites if x[0] == k[0] and x[1] >= k[1]]) if any(x <= k[1] for x in tl) or g.id != f.id else set()
                c.check(any('std::exception' in t or t == '...' for t in ty), 'R7', 'an exception of the parser is caught', '%s in %s' % (F.fns[k[0]].loc(k[1]), f.qn), construct='%s not caught in %s' % (k[2], f.qn))
            for fa, ret, ev in r.rets:
                wh = '%s in %s' % (f.loc(ev.line), f.qn)
                if fa[0] == 'caught':
                    c.check(ret == FALSE or whole and isc(ret, 'endOfStream'), 'R7', 'a failure is answered with false', wh, construct='answer after a failure in ' + f.qn)
                elif whole:
                    c.check(ret == FALSE or fa[2] and (isc(ret, 'endOfStream') or ret == TRUE and fa[0] == 'end'), 'R7', 'true means that every byte was consumed', wh, construct='answer in ' + f.qn)

