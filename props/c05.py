from .common import *

META = dict(
    title='An input is accepted only when it spends an existing, unlocked, unspent output',
    statement='A transaction passes the input check of the chain only if each of its inputs is a key input or a multisignature input, and: a key input names at least one output, its key image is unspent, every ring member it names exists for its amount, is unlocked and is a key output, the number of signatures equals the ring size, and (outside the checkpoint zone) its key image lies in the prime-order group and the ring signature over the transaction prefix is valid; a multisignature input names an existing unused output of an unlocked transaction with the same signature count and term, whose deposit has matured, and (outside the checkpoint zone) carries one valid signature of a different key for each required signature. An output is unlocked only when its unlock height or time has been reached.',
    over=['inputs', 'histories'],
    qtext='every transaction and every chain state; every path of the input check to acceptance, every input and every ring member',
    why='Tests try a few malformed inputs of each kind; the checks have to be made for every input and every ring member on every path, and a shortcut (checkpoint zone, cached result, early return) that skips one of them lets coins be spent twice or without authority.',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/Blockchain.h'],
    mechanism=[('input check', 'Blockchain::checkTransactionInputs'), ('key input', 'Blockchain::check_tx_input, scanOutputKeysForIndexes'), ('multisignature input', 'Blockchain::validateInput'), ('unlock rule', 'Blockchain::is_tx_spendtime_unlocked')],
    state=[('spent key images', 'one entry per spent key output', 'Blockchain::m_spent_keys'), ('multisignature outputs', 'outputs with their used flag', 'Blockchain::m_multisignatureOutputs'), ('outputs by amount', 'ring member lookup', 'Blockchain::m_outputs')],
    observe=['acceptance of a transaction in a block or the pool'],
    technique='path-sensitive guard domination with helper inlining down to elementary comparisons, per-input and per-ring-member loop coverage',
    level_note='Decides that every accepting path made each comparison with the right operands for each input; the signature algorithms themselves and integer overflow of ring offsets are not verified.',
)
MIN = 12
EXPLAIN = 'All CFG paths of the transaction input check with its helpers inlined; one obligation per elementary check and input kind, per loop over inputs, ring members and signatures, and per accepting exit of the unlock rule.'

BC = 'cn::Blockchain::'
LEAF = {BC + 'm_outputs', BC + 'm_spent_keys', BC + 'm_multisignatureOutputs', 'crypto::check_ring_signature', 'crypto::check_signature', 'crypto::scalarmultKey', 'crypto::crypto_ops::check_ring_signature', BC + 'is_tx_spendtime_unlocked', 'cn::Checkpoints::m_points',
        BC + 'getCurrentBlockchainHeight', 'cn::parameters::UPGRADE_HEIGHT_V4'}
STOP = (BC + 'getCurrentBlockchainHeight', BC + 'is_tx_spendtime_unlocked', BC + 'transactionByIndex', 'cn::getObjectHash', 'cn::relative_output_offsets_to_absolute', 'crypto::check_ring_signature', 'crypto::check_signature', 'crypto::scalarmultKey', 'cn::Currency::*', 'cn::toBinaryArray', 'common::podToHex', 'SwappedVector*', 'logging::*')


def keys(f):
    return bool(LEAF & f.names) and 'UpgradeDetector' not in f.cls and 'SwappedVector' not in f.cls


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'every input is of a supported kind and passed each check of its kind before acceptance')
    c.rule('R2', 'every ring member is checked')
    c.rule('R3', 'each required signature is verified with its own key')
    c.rule('R4', 'an output counts as unlocked only when its height or time is reached')
    c.rule('R5', 'the signed message is the hash of the transaction prefix')
    all_ = F.q(BC + 'checkTransactionInputs')
    ids = {f.id for f in all_}
    fns = [f for f in all_ if not ids & set(f.calls)]
    if len(fns) != 1:
        c.broken('%d input checking functions' % len(fns))
    fn = fns[0]
    inp = lambda t: isf(t, 'inputs')
    zone = lambda a, p: (leq(a, p, lambda t: noff(t) and m.call(t, 'getCurrentBlockchainHeight'), lambda t: noff(t) and m.fld(t, 'm_points') and m.fld(t, 'first')) or truth_of(a, p, 'is_in_checkpoint_zone') == 1)
    H = lambda t: m.call(t, 'getCurrentBlockchainHeight')
    nokey = lambda a, p: not_type(a, p, 'KeyInput') or is_type(a, p, 'MultisignatureInput')
    nomsig = lambda a, p: not_type(a, p, 'MultisignatureInput') or is_type(a, p, 'KeyInput')
    MO = lambda t: m.fld(t, 'm_multisignatureOutputs')

    def per(what, gate, skip, **kw):
        c.each('R1', what, fn, keys, inp, done_br=lambda a, p, ev: gate(a, p) or (skip is not None and skip(a, p)), exits=succ, no_inline=STOP, **kw)
    per('every input is a key input or a multisignature input', lambda a, p: is_type(a, p, 'KeyInput') or is_type(a, p, 'MultisignatureInput'), None)
    per('a key input names at least one output', lambda a, p: p == 0 and stripc(a)[0] == 'empty' and m.fld(a, 'outputIndexes') or ne(a, p, lambda t: const_of(t) == 0, lambda t: m.fld(t, 'outputIndexes')) or lt(a, p, lambda t: const_of(t) == 0, lambda t: m.fld(t, 'outputIndexes')) or truth_of(a, p, 'size') == 1 and m.fld(a, 'outputIndexes') or stripc(a)[0] in ('size',) and p == 1, nokey)
    per('the key image of a key input is unspent', lambda a, p: absent(a, p, lambda t: m.fld(t, 'm_spent_keys')), nokey)
    per('the amount of a key input is known', lambda a, p: present(a, p, lambda t: m.fld(t, 'm_outputs')), nokey)
    S = lambda f: lambda t: (t[0] == 'size' or t[0] == 'call' and last(t[1]) == 'size') and f(t)
    per('a key input has one signature per ring member', lambda a, p: eq(a, p, lambda t: strip_size(t) is not None and m.fld(strip_size(t), 'signatures'), lambda t: strip_size(t) is not None and not m.fld(strip_size(t), 'signatures')), nokey)
    V4 = lambda t: m.glob(t, 'UPGRADE_HEIGHT_V4')
    V5 = lambda t: m.glob(t, 'UPGRADE_HEIGHT_V5')
    per('a key input has a ring of at least 3 members between upgrades 4 and 5', lambda a, p: leq(a, p, lambda t: noff(t) and H(t), lambda t: stripc(t)[0] == 'glob' and V4(t)) or leq(a, p, lambda t: stripc(t)[0] == 'glob' and V5(t), lambda t: H(t) and noff(t)) or leq(a, p, lambda t: isinstance(const_of(t), int) and const_of(t) >= 3, lambda t: strip_size(t) is not None) or leq(a, p, lambda t: const_of(t) == 2, lambda t: strip_size(t) is not None) and a[1] == '<', nokey)
    per('the key image of a key input lies in the prime-order group', lambda a, p: zone(a, p) or p == 1 and m.call(a, 'scalarmultKey') and m.fld(a, 'keyImage') and not eqneg(a), nokey)
    per('the ring signature of a key input is valid', lambda a, p: zone(a, p) or truth_of(a, p, 'check_ring_signature') == 1 and m.fld(a, 'keyImage'), nokey)
    # multisignature inputs
    per('the amount of a multisignature input is known', lambda a, p: present(a, p, MO), nomsig)
    per('a multisignature input names an existing output', lambda a, p: lt(a, p, lambda t: isf(t, 'outputIndex') and noff(t), lambda t: strip_size(t) is not None and MO(t) and noff(t)), nomsig)
    per('a multisignature input names an unused output', lambda a, p: p == 0 and isf(stripc(a), 'isUsed') and MO(a), nomsig)
    per('a multisignature input names an output of an unlocked transaction', lambda a, p: truth_of(a, p, 'is_tx_spendtime_unlocked') == 1 and MO(a), nomsig)
    per('a multisignature input has the signature count of its output', lambda a, p: eq(a, p, lambda t: isf(t, 'signatureCount') and not MO(t), lambda t: isf(t, 'requiredSignatureCount') and MO(t)), nomsig)
    per('a multisignature input has the term of its output', lambda a, p: eq(a, p, lambda t: isf(t, 'term') and not MO(t), lambda t: isf(t, 'term') and MO(t)), nomsig)
    trm = lambda t: m.fld(t, 'term')
    per('a multisignature input spends no immature deposit', lambda a, p: eq(a, p, lambda t: isf(t, 'term'), lambda t: const_of(t) == 0) or leq(a, p, lambda t: trm(t) and m.fld(t, 'block') and noff(t), lambda t: H(t) and noff(t)), nomsig)
    need = lambda t: isf(t, 'signatureCount', 'requiredSignatureCount')
    per('a multisignature input has all its signatures verified', lambda a, p: zone(a, p) or leq(a, p, need, lambda t: not need(t) and const_of(t) is None and noff(t)) or eq(a, p, need, lambda t: stripc(t)[0] == 'phi'), nomsig)
    # ring members
    off = lambda t: m.call(t, 'relative_output_offsets_to_absolute')
    reach = callees(F, fn)
    rings = [f for f in F.fns.values() if f.id in reach and BC + 'm_outputs' in f.names and any(e[0] == 'c' and e[4] == 'cn::relative_output_offsets_to_absolute' for e in f.ex)] or [fn]
    ring = lambda what, gate: [c.each('R2', what, fr, keys, off, done_br=lambda a, p, ev: gate(a, p), exits=succ, no_inline=STOP) for fr in rings]
    ring('every ring member exists', lambda a, p: lt(a, p, lambda t: noff(t) and not strip_size(t), lambda t: strip_size(t) is not None and m.fld(t, 'm_outputs') and not isf(strip_size(t), 'outputs') and noff(t)))
    ring('every ring member is unlocked', lambda a, p: truth_of(a, p, 'is_tx_spendtime_unlocked') == 1)
    ring('every ring member is a key output', lambda a, p: is_type(a, p, 'KeyOutput'))
    # signatures of a multisignature input
    sr = SigLoop(E, keys, m)
    vi = [f for f in F.cls('cn::Blockchain') if any(e[0] == 'c' and e[4] == 'crypto::check_signature' for e in f.ex)]
    if not vi:
        c.bad('R3', 'multisignature signatures are verified', fn.loc(), construct='check_signature not called')
    for f in vi:
        sr.reset()
        c.run(sr, f)
        for (fid, line), why in sorted(sr.sites.items()):
            c.check(not why, 'R3', 'each counted signature was verified with a key not used before%s' % (': ' + why if why else ''), '%s in %s' % (f.loc(line), f.qn), construct='signature count in %s' % f.qn)
    # unlock rule
    UT = lambda t: stripc(t)[0] == 'param' and noff(t)
    for f in F.q(BC + 'is_tx_spendtime_unlocked'):
        g = {
            'reached': lambda a, p, ev: leq(a, p, UT, lambda t: m.call(t, 'getCurrentBlockchainHeight') and lin(t).get(1, 0) <= -1) or lt(a, p, UT, lambda t: m.call(t, 'getCurrentBlockchainHeight') and lin(t).get(1, 0) <= 0)
            or leq(a, p, UT, lambda t: m.call(t, 'time') and m.call(t, 'lockedTxAllowedDeltaSeconds') and lin(t).get(1, 0) <= 0) or leq(a, p, UT, lambda t: m.call(t, 'time') and lin(t).get(1, 0) <= 0),
            'kind': lambda a, p, ev: lt(a, p, UT, lambda t: m.call(t, 'maxBlockHeight')) or leq(a, p, lambda t: m.call(t, 'maxBlockHeight'), UT),
        }
        c.gates('R4', f, {'cn::Currency::maxBlockHeight'}, {'reached': 'the unlock height or time is reached', 'kind': 'the unlock value is read as a height or as a time by its size'}, br=g,
                exits=lambda k, r: {'reached', 'kind'} if succ(k, r) else None, no_inline=STOP)
        # a height is compared with a height, a time with a time
        for label, br0, bad in (('height', lambda a, p: lt(a, p, UT, lambda t: m.call(t, 'maxBlockHeight')), 'time'), ('time', lambda a, p: leq(a, p, lambda t: m.call(t, 'maxBlockHeight'), UT), 'getCurrentBlockchainHeight')):
            rb = Mixed(E, {'cn::Currency::maxBlockHeight'}, br0, bad, UT, m)
            c.run(rb, f)
            c.check(not rb.bad, 'R4', 'an unlock %s is compared with a %s' % (label, label), f.loc(rb.bad[0].line) if rb.bad else f.loc(), construct='unlock %s in %s' % (label, f.qn))
    # the message: both callers hash the prefix
    cal = Calls(E, keys, STOP + (fn.id,), lambda ev: ev.fid == fn.id)
    for g_ in [x for x in F.fns.values() if fn.id in x.calls]:
        cal.reset()
        c.run(cal, g_)
        for ev in cal.hits:
            hs = [a for a in ev.args if m.call(a, 'getObjectHash')]
            ok = not hs or any('TransactionPrefix' in str(a) or 'Prefix' in str(x) for a in hs for x in subterms(a))
            ids = [e for e in g_.ex if e[0] == 'c' and e[4] == 'cn::getObjectHash']
            c.check(any('TransactionPrefix' in e[3] for e in ids) if ids else True, 'R5', 'the hash that is signed is the hash of the prefix', '%s %s' % (ev.loc(), g_.qn), construct='prefix hash in %s' % g_.qn)


def eqneg(a):
    return a[0] == 'cmp' and a[1] == '!='


def strip_size(t):
    t = stripc(t)
    if t[0] == 'size':
        return t[1]
    if t[0] == 'call' and last(t[1]) in ('size', 'length') and t[2] is not None:
        return t[2]
    return None


def present(a, p, pred):
    a = stripc(a)
    return p == 1 and a[0] == 'in' and pred(a[1]) or ne(a, p, lambda t: pred(t) and isc(t, 'find'), lambda t: isc(t, 'end') and pred(t)) or truth_of(a, p, 'count') == 1 and pred(a)


class Mixed(Rule):
    """an accepting path that took the value for one kind and compared it with the other kind's limit"""
    init = frozenset()
    no_inline = STOP
    max_depth = 5

    def __init__(self, E, keys, kind, other, UT, m):
        self.E, self.keys, self.k, self.o, self.UT, self.m = E, keys, kind, other, UT, m
        self.reset()

    def reset(self):
        self.bad = []

    def branch(self, f, a, p, ev):
        if self.k(a, p):
            f = f | {'k'}
        if leq(a, p, self.UT, lambda t: self.m.call(t, self.o)):
            f = f | {'o'}
        return f

    def leave(self, f, kind, ret, ev, st):
        if succ(kind, ret) and 'k' in f and 'o' in f:
            self.bad.append(ev)


class SigLoop(Rule):
    """the counter of verified signatures advances only after a check with a key index that moved since the last counted check"""
    init = ('-', False, False)     # (a verified signature is pending, the key moved since it was last checked, the key was already counted)
    no_inline = STOP
    max_depth = 3

    def __init__(self, E, keys, m):
        self.E, self.keys, self.m = E, keys, m
        self.reset()

    def reset(self):
        self.sites, self.keyvars, self.sigvars = {}, set(), set()

    @staticmethod
    def idx(t):
        return {x[3] for x in subterms(t) if x[0] == 'phi' and len(x) > 3}

    def event(self, f, ev, st):
        ver, moved, used = f
        if ev.kind == 'call' and ev.name == 'check_signature' and len(ev.args) >= 3:
            self.keyvars |= self.idx(ev.args[1])
            self.sigvars |= self.idx(ev.args[2]) - self.idx(ev.args[1])
            if self.final:
                self.sites.setdefault((ev.fn.id, ev.line), '')
                if used:
                    self.sites[(ev.fn.id, ev.line)] = 'the key does not change between two counted signatures'
            return ('-', False, used)
        v = None
        if ev.kind == 'write' and ev.lhs[0] == 'var':
            v = ev.lhs[1]
        elif ev.kind == 'call' and ev.name in ('operator++', 'operator+=') and ev.obj is not None:
            vs = self.idx(ev.obj) & self.keyvars
            v = vs.pop() if vs else None
        if v in self.sigvars:
            if self.final:
                self.sites.setdefault((ev.fn.id, ev.line), '')
                if ver != 'ok' and const_of(ev.rhs) != 0:
                    self.sites[(ev.fn.id, ev.line)] = 'a signature is counted that was not verified'
            return ('-', moved, used)
        if v is not None and v in self.keyvars:
            return (ver, True, False)
        return f

    def branch(self, f, a, p, ev):
        ver, moved, used = f
        r = truth_of(a, p, 'check_signature')
        if r == 1:
            return ('ok', moved, not moved)
        return f
