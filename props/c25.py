"""The wallet container: opened with its password only, keys never lost, operations only while open."""
from .common import *
from sa.engine import param_types
from .c17 import Hits
from .c18 import lams
from .c23 import Seq

WG = 'cn::WalletGreen::'

META = dict(
    title='A wallet opens only with its password, keeps its keys and acts only while open',
    statement='A container is opened only in the closed state, with keys decrypted by the given password whose secret and public halves match, and every operation on it needs the open, running state. No encryption reuses an initialisation vector, and a change of password, an added or deleted address, a save or an export treats every stored key and replaces the file only by a completely written one. A save always restarts the synchroniser and reports its outcome; a shutdown clears everything.',
    over=['inputs', 'histories', 'faults', 'crash points'],
    qtext='every file, password, sequence of operations and point of failure',
    why='A wallet file is the only copy of the keys: one that opens with wrong keys, loses a record, or encrypts two records with one keystream loses or leaks money. Tests open well-formed files that they wrote themselves.',
    files=['src/Wallet/WalletGreen.cpp', 'src/Wallet/WalletGreen.h', 'src/Wallet/WalletUtils.cpp', 'src/Common/FileMappedVector.h'],
    mechanism=[('opening', 'WalletGreen::load, loadContainerStorage, loadSpendKeys, initWithKeys'), ('password', 'WalletGreen::changePassword, copyContainerStorageKeys, copyContainerStoragePrefix'), ('addresses', 'WalletGreen::addWallet, deleteAddress'), ('saving', 'WalletGreen::save, exportWallet, saveWalletCache'), ('file', 'FileMappedVector::atomicUpdate0, push_back, open')],
    state=[('container storage', 'the encrypted keys and the cache', 'WalletGreen::m_containerStorage'), ('wallets', 'the addresses in memory', 'WalletGreen::m_walletsContainer'), ('state', 'open or closed', 'WalletGreen::m_state')],
    observe=['results and exceptions of the wallet operations', 'the wallet file'],
    technique='gate, follow-up and per-element analysis over the CFG including exception edges, and a typestate of the initialisation vector',
    level_note='Decides the order and the guards of every step on every path; that chacha8 and the memory-mapped file do what they are called for, and that the operating system keeps the order of flushes and renames, is trusted. The queries getUnspentOutputs, getReserveProof, getTxProof, createOptimizationTransaction and getTransactionsByPaymentIds are not part of the guard rule: they have no guard of their own and answer from an empty wallet.',
)
MIN = 300
EXPLAIN = 'Every CFG path of the opening, saving, key and address functions of the wallet and of its file; obligations are one per operation, step, encryption and exit.'

UNGUARDED = ('initialize', 'initializeWithViewKey', 'generateNewWallet', 'load', 'start', 'stop', 'addObserver', 'removeObserver', 'getUnspentOutputs', 'getUnspentOutputsCount', 'getReserveProof', 'getTxProof', 'createOptimizationTransaction', 'getTransactionsByPaymentIds')
SPENDS = ('transfer', 'makeTransaction', 'commitTransaction', 'rollbackUncommitedTransaction', 'withdrawDeposit', 'createDeposit')


def HERE(f):
    return f.rel().endswith('Wallet/WalletGreen.cpp') or f.rel().endswith('Wallet/WalletGreen.h')


def FILE(f):
    return f.rel().endswith('Common/FileMappedVector.h')


class Asked(Rule):
    """where the outcome `yes` was seen (and not `no`), the step is done before a normal return; unknown: as init says"""
    def __init__(self, E, keys, no_inline, yes, no, step, init, exc=None):
        self.E, self.keys, self.no_inline, self.yes, self.no_, self.step, self.init = E, keys, no_inline, yes, no, step, (init, 0)
        self.max_depth = 3
        if exc:
            self.exc = exc
        self.reset()

    def reset(self):
        self.bad, self.n = [], 0

    def branch(self, f, a, p, ev):
        if self.yes(a, p, ev):
            self.n += 1
            return (2 if f[0] == 0 else 1, f[1])      # 2: contradicts what this path knows
        if self.no_(a, p, ev):
            return (2 if f[0] == 1 else 0, f[1])
        return f

    def event(self, f, ev, st_):
        return (f[0], 1) if self.step(ev) else f

    def leave(self, f, kind, ret, ev, st_):
        if kind == 'ret' and f[0] in (1, None) and not f[1] and self.final:
            self.bad.append(ev)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'every operation needs the open, running wallet; spending needs its keys')
    c.rule('R2', 'a container is opened only when closed, with the key of the given password and matching key pairs')
    c.rule('R3', 'a failed opening leaves nothing behind; a shutdown clears everything')
    c.rule('R4', 'a new password needs the old one, re-encrypts every record, and takes effect after the file was replaced')
    c.rule('R5', 'every initialisation vector is used once')
    c.rule('R6', 'an address is stored, subscribed and indexed together, once, and deleted with all it holds')
    c.rule('R7', 'a save stops the synchroniser, writes all, flushes, restarts it on every way out and reports')
    c.rule('R8', 'the file is replaced only by a complete, flushed one, and an element counts only after it was written')
    K = HERE
    par = lambda i: (lambda t: strip(t)[0] == 'param' and strip(t)[1] == i)
    has = lambda t, pred: any(pred(x) for x in subterms(t))
    strc = lambda s: (lambda t: t[0] == 'str' and t[1] == s)
    at = lambda ev: '%s in %s' % (ev.fn.loc(ev.line), ev.fn.qn)
    where = lambda g: '%s in %s' % (g.loc(), g.qn)
    okret = lambda k, r: k == 'ret'
    cl = lambda *n: (lambda ev: ev.kind == 'call' and ev.name in n)
    on = lambda field, *n: (lambda ev: ev.kind == 'call' and ev.name in n and ev.obj is not None and has(ev.obj, lambda t: isf(t, field)))
    on0 = lambda field, *n: (lambda ev: ev.kind == 'call' and ev.name in n and ev.obj is not None and isf(ev.obj, field))
    wr = lambda field: (lambda ev: ev.kind == 'write' and ev.lhs is not None and isf(ev.lhs, field))
    tr = lambda n, v=1: (lambda a, p, ev: truth_of(a, p, n) == v)
    opened = lambda a, p, ev: is_enum(a, p, lambda t: isf(t, 'm_state'), 'INITIALIZED')
    running = lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_stopped')) == 0
    q = lambda n: F.q1(WG + n)

    # ---- R1
    pub = [f for f in F.fns.values() if f.qn.startswith(WG) and f.cls == 'cn::WalletGreen' and any(o.startswith('cn::IWallet::') or o.startswith('cn::IFusionManager::') for o in f.over) and not f.name.startswith('~')]
    if len(pub) < 30:
        c.bad('R1', 'the operations of the wallet are found', where(q('shutdown')), construct='operations of the wallet')
    track = lambda a, p, ev: not_enum(a, p, lambda t: isc(t, 'getTrackingMode'), 'TRACKING')
    NOT = (WG + 'getTrackingMode', WG + 'doShutdown', WG + 'load', WG + 'save', WG + 'doTransfer', WG + 'doCreateAddressList', WG + 'prepareTransaction', WG + 'validateSaveAndSendTransaction', WG + 'makeTransaction', WG + 'pickWallets', WG + 'selectTransfers', WG + 'requestMixinOuts', WG + 'prepareInputs', WG + 'saveWalletCache', WG + 'updateBalance', WG + 'pushEvent', WG + 'getUnspentOutputs', WG + 'getUnspentOutputsCount', WG + 'createFusionTransaction')
    for f in sorted(pub, key=lambda f: f.id):
        if f.name in UNGUARDED:
            continue
        no = tuple(x for x in NOT if x != f.qn and not (x == WG + 'doCreateAddressList'))
        stops = f.name != 'shutdown'
        need = {'open', 'run'} if stops else {'open'}
        act = lambda ev: ev.kind in ('call', 'write') and has(ev.obj if ev.kind == 'call' and ev.obj is not None else ev.lhs if ev.kind == 'write' else ('none',), lambda t: isf(t, 'm_walletsContainer', 'm_transactions', 'm_transfers', 'm_deposits', 'm_containerStorage', 'm_uncommitedTransactions', 'm_synchronizer', 'm_actualBalance', 'm_pendingBalance')) and ev.name not in ('getTrackingMode',)
        c.gates('R1', f, K, {'open': 'the wallet is open', 'run': 'the wallet is not stopped', 'keys': 'the wallet holds its spend keys'}, br={'open': opened, 'run': running, 'keys': track}, ev={}, exits=lambda k, r: frozenset(need | ({'keys'} if f.name in SPENDS else set())) if k == 'ret' else None,
                targets=[('wallet used', act, need)], no_inline=no, max_depth=4, min_sites=1)
    gt = q('getTrackingMode')

    # ---- R2, R3: opening
    closed = lambda a, p, ev: is_enum(a, p, lambda t: isf(t, 'm_state'), 'NOT_INITIALIZED')
    opens = lambda ev: wr('m_state')(ev) and enumv(ev.rhs, 'INITIALIZED')
    n = 0
    for f in F.fns.values():
        if f.cls == 'cn::WalletGreen' and not f.parent:
            own = [ev for ev in c_run(c, Hits(E, None, opens), f).hits]
            if own:
                n += 1
                c.check(f.name in ('load', 'initWithKeys'), 'R2', 'the wallet is opened by the opening functions only', at(own[0]), construct='opening in ' + f.qn)
    if n < 2:
        c.bad('R2', 'the wallet is opened', where(q('initWithKeys')), construct='opening')
    load = [f for f in F.q(WG + 'load') if len(param_types(f.id)) == 3]
    load = load[0] if len(load) == 1 else c.broken('load is not found')
    iw = q('initWithKeys')
    genkey = lambda k, pw: (lambda ev: ev.kind == 'call' and ev.name == 'generate_chacha8_key' and len(ev.args) >= 3 and isf(ev.args[2], k) and has(ev.args[1], pw))
    LN = tuple(WG + x for x in ('loadContainerStorage', 'convertAndLoadWalletFile', 'loadWalletCache', 'subscribeWallets', 'clearCaches', 'deleteOrphanTransactions', 'saveWalletCache', 'scheduleDepositUnlockJobs', 'initBlockchain', 'initTransactionPool', 'stopBlockchainSynchronizer', 'startBlockchainSynchronizer'))
    ver = lambda t: isf(t, 'SERIALIZATION_VERSION') or t[0] == 'glob' and last(str(t[1])) == 'SERIALIZATION_VERSION' or t[0] == 'enum' or 'SERIALIZATION_VERSION' in str(t)
    minv = lambda t: 'MIN_VERSION' in str(t)
    peek = lambda t: isc(t, 'peek')
    c.gates('R2', load, K, {'closed': 'the wallet was closed', 'run': 'the wallet is not stopped', 'key': 'the key is made from the password', 'keys': 'the keys were loaded', 'path': 'the path is kept', 'pw': 'the password is kept', 'obs': 'the wallet observes the synchroniser', 'pool': 'the pool is initialised'},
            br={'closed': closed, 'run': running}, ev={'key': genkey('m_key', par(1)), 'keys': cl('loadContainerStorage', 'convertAndLoadWalletFile'), 'path': wr('m_path'), 'pw': lambda ev: ev.kind in ('write', 'call') and has(ev.lhs if ev.kind == 'write' else ev.obj or ('none',), lambda t: isf(t, 'm_password')) and has(ev.rhs if ev.kind == 'write' else ev.term, par(1)), 'obs': on('m_blockchainSynchronizer', 'addObserver'), 'pool': cl('initTransactionPool')},
            targets=[('wallet opened', opens, {'closed', 'run', 'key', 'keys', 'path', 'pw', 'obs', 'pool'}), ('keys loaded', cl('loadContainerStorage', 'convertAndLoadWalletFile'), {'closed', 'run', 'key'})], no_inline=LN)
    c.gates('R2', load, K, {'new': 'the version is known', 'old': 'the version is not an old one'}, br={'new': lambda a, p, ev: leq(a, p, peek, ver), 'old': lambda a, p, ev: leq(a, p, minv, peek)}, ev={}, targets=[('storage opened', cl('loadContainerStorage'), {'new', 'old'})], no_inline=LN)
    c.gates('R2', load, K, {'eof': 'the file has a version'}, br={'eof': lambda a, p, ev: ne(a, p, peek, lambda t: const_of(t) == -1 or t[0] == 'un' and t[1] == '-' and const_of(t[2]) == 1)}, ev={}, targets=[('keys loaded', cl('loadContainerStorage', 'convertAndLoadWalletFile'), {'eof'})], no_inline=LN)
    follow(c, 'R2', 'the loaded addresses are subscribed', load, K, cl('loadContainerStorage'), done=cl('subscribeWallets'), no_inline=LN)
    follow(c, 'R2', 'a cache that cannot be loaded is dropped, and the addresses are subscribed anew', load, K, lambda ev: ev.kind == 'call' and ev.name == 'clearCaches', done=cl('subscribeWallets'), no_inline=LN, exc='try', exits=okret, again=True)
    lc = c_run(c, Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'loadWalletCache' and len(ev.args) >= 2, no_inline=LN), load).hits
    if not lc:
        c.bad('R2', 'the cache is loaded', where(load), construct='cache in ' + load.qn)
    for i_, what, d in ((0, 'addresses that the cache does not know are synchronised anew', lambda ev: ev.kind == 'call' and ev.name == 'clearCaches' and len(ev.args) > 1 and ev.args[1] == TRUE), (1, 'transactions of addresses that are gone are removed', lambda ev: cl('deleteOrphanTransactions')(ev) or ev.kind == 'call' and ev.name == 'clearCaches' and ev.args and ev.args[0] == TRUE)):
        for x in {ev.args[i_] for ev in lc}:
            same = lambda t: strip(t) == strip(x)
            r = c_run(c, Asked(E, K, LN, lambda a, p, ev: is_empty(a, 1 - p, same), lambda a, p, ev: is_empty(a, p, same), d, 'unasked', exc='try'), load)
            c.check(r.n and not r.bad, 'R2', what, at(r.bad[0]) if r.bad else where(load), construct='%s in %s' % (what, load.qn))

    class Dropped(Rule):
        """an exception of the cache ends with the caches cleared, not with half of them"""
        exc = 'try'
        init = 0

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, LN
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n, self.types = [], 0, set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch' and f == 1:
                self.types.add(str(ev.type))
                return 2
            if f == 2 and ev.kind == 'call' and ev.name == 'clearCaches' and ev.args and ev.args[0] == TRUE and ev.args[1] == TRUE:
                return 0
            if ev.kind == 'call' and ev.name == 'loadWalletCache':
                self.n += 1
                return 1
            if opens(ev) and f == 2 and self.final:
                self.bad.append(ev)
            return 0 if f == 1 and ev.kind == 'call' else f
    r = c_run(c, Dropped(), load)
    c.check(r.n and not r.bad and any('std::exception' in t or '...' in t for t in r.types), 'R2', 'a cache that fails to load is cleared and the wallet still opens', at(r.bad[0]) if r.bad else where(load), construct='cache of ' + load.qn)
    lcs, lsk = q('loadContainerStorage'), q('loadSpendKeys')
    mism = lambda *fs: (lambda ev: ev.kind == 'call' and ev.name == 'throwIfKeysMissmatch' and len(ev.args) >= 2 and isf(ev.args[0], fs[0]) and isf(ev.args[1], fs[1]))
    c.gates('R2', lcs, K, {'open': 'the file is opened', 'dec': 'the view keys are decrypted', 'view': 'the view keys match', 'spend': 'the spend keys are loaded'}, br={}, no_inline=(WG + 'loadSpendKeys', WG + 'decryptKeyPair'),
            ev={'open': on('m_containerStorage', 'open'), 'dec': lambda ev: ev.kind == 'call' and ev.name == 'decryptKeyPair' and has(ev.args[0], lambda t: isf(t, 'encryptedViewKeys')) and isf(ev.args[1], 'm_viewPublicKey') and isf(ev.args[2], 'm_viewSecretKey'), 'view': mism('m_viewSecretKey', 'm_viewPublicKey'), 'spend': cl('loadSpendKeys')},
            exits=lambda k, r_: {'open', 'dec', 'view', 'spend'} if k == 'ret' else None, targets=[('spend keys loaded', cl('loadSpendKeys'), {'open', 'dec', 'view'}), ('view keys compared', mism('m_viewSecretKey', 'm_viewPublicKey'), {'dec'})])

    class Failed(Rule):
        """a failed opening, seen by its handler, closes the file and drops the addresses"""
        exc = 'try'
        init = None

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, (WG + 'loadSpendKeys', WG + 'decryptKeyPair')
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n, self.types = [], 0, set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch' and f is None:
                self.n += 1
                self.types.add(str(ev.type))
                return frozenset()
            if f is not None:
                if on('m_walletsContainer', 'clear')(ev):
                    return f | {'mem'}
                if on('m_containerStorage', 'close')(ev):
                    return f | {'file'}
            return f

        def leave(self, f, kind, ret, ev, st_):
            if f is not None and (kind == 'ret' or f != {'mem', 'file'}) and self.final:
                self.bad.append(ev)
    r = c_run(c, Failed(), lcs)
    c.check(r.n and not r.bad and any('std::exception' in t or '...' in t for t in r.types), 'R3', 'a failed opening closes the file, drops the addresses and is told', at(r.bad[0]) if r.bad else where(lcs), construct='failure in ' + lcs.qn)
    added = on('m_walletsContainer', 'emplace_back', 'push_back', 'insert', 'emplace')
    fresh = lambda a, p, ev: lt(a, p, lambda t: True, lambda t: isc(t, 'size') and has(t, lambda x: isf(x, 'm_containerStorage'))) or loop_more(E, a, p, lambda t: isf(t, 'm_containerStorage')) == 1
    nosec = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'spendSecretKey'), lambda t: 'NULL_SECRET_KEY' in str(t))
    sec = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'spendSecretKey'), lambda t: 'NULL_SECRET_KEY' in str(t))
    good = lambda a, p, ev: truth_of(a, p, 'check_key') == 1 and has(a, lambda t: isf(t, 'spendPublicKey'))
    c.gates('R2', lsk, K, {'dec': 'its keys are decrypted', 'own': 'its keys match, or its public key is valid'}, br={'own': good}, ev={'dec': cl('decryptKeyPair'), 'own': mism('spendSecretKey', 'spendPublicKey')}, fresh=fresh, targets=[('address loaded', added, {'dec', 'own'})], no_inline=(WG + 'decryptKeyPair',))
    follow(c, 'R2', 'a secret key is compared with its public key', lsk, K, lambda ev: False, trig_br=sec, done=lambda ev: mism('spendSecretKey', 'spendPublicKey')(ev), exits=lambda k, r_: False, again=True, no_inline=(WG + 'decryptKeyPair',))

    class Keyed(Rule):
        """an address with a secret key is loaded only after the comparison"""
        init = (None, 0)

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, (WG + 'decryptKeyPair',)
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n = [], 0

        def branch(self, f, a, p, ev):
            if fresh(a, p, ev):
                return (None, 0)
            if sec(a, p, ev):
                return (2 if f[0] == 0 else f[0] or 1, f[1])   # 2: contradicts what this path knows
            if nosec(a, p, ev):
                return (2 if f[0] == 1 else f[0] or 0, f[1])
            return f

        def event(self, f, ev, st_):
            if mism('spendSecretKey', 'spendPublicKey')(ev):
                return (f[0], 1)
            if added(ev):
                self.n += 1
                if f[0] not in (0, 2) and not f[1] and self.final:
                    self.bad.append(ev)
            return f
    r = c_run(c, Keyed(), lsk)
    c.check(r.n and not r.bad, 'R2', 'an address with a secret key is loaded only if it matches its public key', at(r.bad[0]) if r.bad else where(lsk), construct='secret keys in ' + lsk.qn)
    follow(c, 'R2', 'addresses with and without secret keys are not mixed', lsk, K, None, trig_br=lambda a, p, ev: False, done=lambda ev: True, min_trigs=0)
    mixed = c_run(c, Hits(E, K, lambda ev: ev.kind == 'throw' and 'BAD_ADDRESS' in str(ev.term)), lsk).hits
    c.check(bool(mixed), 'R2', 'addresses with and without secret keys are not mixed', where(lsk), construct='mixed addresses in ' + lsk.qn)
    c.each('R2', 'every stored address is loaded', lsk, K, lambda t: isf(t, 'm_containerStorage'), done=added, exits=okret, no_inline=(WG + 'decryptKeyPair',))
    km = [f for f in F.fns.values() if f.qn == 'cn::throwIfKeysMissmatch']
    if len(km) != 1:
        c.broken('throwIfKeysMissmatch is not found')
    c.gates('R2', km[0], lambda f: f.rel() == km[0].rel(), {'sec': 'the secret key is valid', 'eq': 'the public key is that of the secret key'}, br={'sec': tr('secret_key_to_public_key'), 'eq': lambda a, p, ev: eq(a, p, par(1), lambda t: True)}, ev={}, exits=lambda k, r_: {'sec', 'eq'} if k == 'ret' else None)
    # creating
    enc = lambda ev: ev.kind == 'call' and ev.name == 'encryptKeyPair'
    c.gates('R2', iw, K, {'closed': 'the wallet was closed', 'run': 'the wallet is not stopped', 'key': 'the key is made from the password', 'view': 'the view keys are stored', 'flush': 'the file is flushed', 'pw': 'the password is kept', 'path': 'the path is kept', 'obs': 'the wallet observes the synchroniser', 'sec': 'the view secret key is kept', 'pub': 'the view public key is kept', 'gen': 'the chain starts with the genesis block'},
            br={'closed': closed, 'run': running}, ev={'key': genkey('m_key', par(1)), 'view': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'encryptedViewKeys'), 'flush': lambda ev: ev.kind == 'call' and ev.name == 'flush', 'pw': lambda ev: ev.kind in ('write', 'call') and has(ev.lhs if ev.kind == 'write' else ev.obj or ('none',), lambda t: isf(t, 'm_password')), 'path': wr('m_path'),
                                                        'obs': on('m_blockchainSynchronizer', 'addObserver'), 'sec': wr('m_viewSecretKey'), 'pub': wr('m_viewPublicKey'), 'gen': on('m_blockchain', 'push_back', 'emplace_back')},
            targets=[('wallet opened', opens, {'closed', 'run', 'key', 'view', 'flush', 'pw', 'path', 'obs', 'sec', 'pub', 'gen'}), ('view keys encrypted', enc, {'closed', 'run', 'key'})], no_inline=(WG + 'encryptKeyPair', WG + 'incNextIv'))
    iv = q('initializeWithViewKey')
    c.gates('R2', iv, K, {'pub': 'the public key is that of the secret key'}, br={'pub': tr('secret_key_to_public_key')}, ev={}, targets=[('container made', cl('initWithKeys'), {'pub'})], no_inline=(WG + 'initWithKeys',))
    # shutdown
    ds = q('doShutdown')
    c.gates('R3', ds, K, {'sync': 'the synchroniser is stopped', 'obs': 'the wallet no longer observes it', 'file': 'the file is closed', 'mem': 'the addresses are dropped', 'cache': 'the caches are cleared', 'events': 'the events are dropped', 'state': 'the wallet is closed'}, br={'events': lambda a, p, ev: is_empty(a, p, lambda t: isf(t, 'm_events'))},
            ev={'sync': cl('stopBlockchainSynchronizer'), 'obs': on('m_blockchainSynchronizer', 'removeObserver'), 'file': on('m_containerStorage', 'close'), 'mem': on('m_walletsContainer', 'clear'), 'cache': lambda ev: ev.kind == 'call' and ev.name == 'clearCaches' and ev.args == (TRUE, TRUE) or ev.kind == 'call' and ev.name == 'clearCaches' and list(ev.args) == [TRUE, TRUE],
                'events': lambda ev: ev.kind == 'call' and ev.name == 'swap' and has(ev.term, lambda t: isf(t, 'm_events')) or wr('m_events')(ev), 'state': lambda ev: wr('m_state')(ev) and enumv(ev.rhs, 'NOT_INITIALIZED')}, exits=lambda k, r_: {'sync', 'obs', 'file', 'mem', 'cache', 'events', 'state'} if k == 'ret' else None, no_inline=LN)
    c.gates('R3', q('shutdown'), K, {'down': 'everything is shut down', 'wait': 'queued procedures are awaited'}, br={}, ev={'down': cl('doShutdown'), 'wait': cl('waitForRemoteSpawns')}, exits=lambda k, r_: {'down', 'wait'} if k == 'ret' else None, no_inline=(WG + 'doShutdown', WG + 'waitForRemoteSpawns'))
    dt = [f for f in F.fns.values() if f.qn == WG + '~WalletGreen']
    for f in dt[:1]:
        c.gates('R3', f, K, {'wait': 'queued procedures are awaited before the wallet goes'}, br={}, ev={'wait': cl('waitForRemoteSpawns')}, exits=lambda k, r_: {'wait'} if k == 'ret' else None, no_inline=(WG + 'doShutdown', WG + 'waitForRemoteSpawns'))
        follow(c, 'R3', 'an open wallet is shut down before it goes', f, K, None, trig_br=opened, done=cl('doShutdown'), no_inline=(WG + 'doShutdown', WG + 'waitForRemoteSpawns'))
    cc = q('clearCaches')

    steps = []
    for i_, fields in ((0, ('m_transactions', 'm_transfers', 'm_deposits')), (1, ('m_uncommitedTransactions', 'm_unlockTransactionsJob', 'm_fusionTxsCache', 'm_blockchain'))):
        steps += [(i_, '%s is cleared' % x, on(x, 'clear')) for x in fields]
    steps += [(1, '%s is cleared' % x, lambda ev, x=x: wr(x)(ev) and const_of(ev.rhs) == 0) for x in ('m_actualBalance', 'm_pendingBalance', 'm_lockedDepositBalance', 'm_unlockedDepositBalance')]
    steps += [(1, 'the subscriptions are removed', lambda ev: ev.kind == 'call' and (ev.name == 'for_each' or ev.name == 'getSubscriptions'))]
    for i_, what, d in steps:
        r = c_run(c, Asked(E, K, (), lambda a, p, ev: flag(a, p, par(i_)) == 1, lambda a, p, ev: flag(a, p, par(i_)) == 0, d, None), cc)
        c.check(not r.bad, 'R3', what, at(r.bad[0]) if r.bad else where(cc), construct='%s in %s' % (what, cc.qn))
    rs = c_run(c, Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'removeSubscription'), cc).hits + [ev for i, f in F.fns.items() if i.startswith(WG + 'clearCaches(') and f is not cc for ev in c_run(c, Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'removeSubscription'), f).hits]
    c.check(bool(rs), 'R3', 'the subscriptions are removed', where(cc), construct='subscriptions in ' + cc.qn)

    # ---- R4: password
    cp = q('changePassword')
    oldpw = lambda a, p, ev: (p == 0 and isc(strip(a), 'compare') or eq(a, p, lambda t: isf(t, 'm_password'), par(0)) or eq(a, p, lambda t: isc(t, 'compare'), lambda t: const_of(t) == 0)) and has(a, lambda t: isf(t, 'm_password')) and has(a, par(0))
    upd = lambda ev: on('m_containerStorage', 'atomicUpdate')(ev)
    setpw = lambda ev: ev.kind in ('write', 'call') and has(ev.lhs if ev.kind == 'write' else ev.obj or ('none',), lambda t: isf(t, 'm_password')) and has(ev.rhs if ev.kind == 'write' else ev.term, par(1)) and not (ev.kind == 'call' and ev.name not in ('assign', 'operator=', 'swap'))
    CN = tuple(WG + x for x in ('copyContainerStoragePrefix', 'copyContainerStorageKeys', 'loadAndDecryptContainerData', 'encryptAndSaveContainerData', 'encryptKeyPair', 'decryptKeyPair'))
    c.gates('R4', cp, K, {'old': 'the old password was given', 'new': 'the new key is made from the new password', 'file': 'the file was rewritten'}, br={'old': oldpw}, ev={'new': lambda ev: ev.kind == 'call' and ev.name == 'generate_chacha8_key' and has(ev.args[1], par(1)) and not isf(ev.args[2], 'm_key'), 'file': upd},
            targets=[('file rewritten', upd, {'old', 'new'}), ('key changed', wr('m_key'), {'old', 'new', 'file'}), ('password changed', setpw, {'old', 'new', 'file'})], no_inline=CN, min_sites=3)
    follow(c, 'R4', 'the key in memory follows the file', cp, K, upd, done=wr('m_key'), no_inline=CN)
    follow(c, 'R4', 'the password in memory follows the file', cp, K, upd, done=setpw, no_inline=CN)
    lf = [f for i, f in F.fns.items() if i.startswith(WG + 'changePassword(') and '$lambda' in i and any('copyContainerStorage' in x for x in f.calls)]
    if not lf:
        c.bad('R4', 'the records are copied', where(cp), construct='copy in ' + cp.qn)
    store = lambda t: isf(t, 'm_containerStorage')
    copy = lambda n_: (lambda ev: ev.kind == 'call' and ev.name == n_ and len(ev.args) == 4 and isf(ev.args[0], 'm_containerStorage') and isf(ev.args[1], 'm_key') and not has(ev.args[2], store) and not isf(ev.args[3], 'm_key'))
    for f in lf:
        c.gates('R4', f, K, {'prefix': 'the view keys are copied, from the old key to the new one', 'keys': 'the spend keys are copied, from the old key to the new one'}, br={}, ev={'prefix': copy('copyContainerStoragePrefix'), 'keys': copy('copyContainerStorageKeys')}, exits=lambda k, r_: {'prefix', 'keys'} if k == 'ret' else None, no_inline=CN)
        size_ = lambda t: isc(t, 'suffixSize')
        follow(c, 'R4', 'the cache is copied with the new key', f, K, None, trig_br=lambda a, p, ev: lt(a, p, lambda t: const_of(t) == 0, size_) or ne(a, p, lambda t: const_of(t) == 0, size_), done=lambda ev: ev.kind == 'call' and ev.name == 'encryptAndSaveContainerData' and not isf(ev.args[1], 'm_key') and not has(ev.args[0], store), no_inline=CN, again=True)
        dec = c_run(c, Hits(E, K, cl('loadAndDecryptContainerData'), no_inline=CN), f).hits
        c.check(bool(dec) and all(has(ev.args[0], store) and isf(ev.args[1], 'm_key') for ev in dec), 'R4', 'the cache is read with the old key', at(dec[0]) if dec else where(f), construct='cache in ' + cp.qn)
    ck, cpx = q('copyContainerStorageKeys'), q('copyContainerStoragePrefix')
    c.each('R4', 'every record is copied', ck, K, par(0), done=lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and has(ev.obj, par(2)), exits=okret, no_inline=CN)
    for f, src, what in ((ck, None, 'a record'), (cpx, lambda t: isf(t, 'encryptedViewKeys'), 'the view key')):
        d = c_run(c, Hits(E, K, cl('decryptKeyPair'), no_inline=CN), f).hits
        c.check(bool(d) and all(len(ev.args) == 5 and has(ev.args[4], par(1)) and (src is None or has(ev.args[0], src)) for ev in d), 'R4', what + ' is read with the source key', at(d[0]) if d else where(f), construct='decrypt in ' + f.qn)
        e_ = c_run(c, Hits(E, K, enc, no_inline=CN), f).hits
        c.check(bool(e_) and all(len(ev.args) == 5 and has(ev.args[3], par(3)) for ev in e_), 'R4', what + ' is written with the target key', at(e_[0]) if e_ else where(f), construct='encrypt in ' + f.qn)
    c.gates('R4', cpx, K, {'ver': 'the version is written', 'view': 'the view keys are written', 'iv': 'the vector is new'}, br={}, ev={'ver': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'version'), 'view': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'encryptedViewKeys'), 'iv': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'nextIv') and has(ev.rhs, lambda t: isc(t, 'randomChachaIV', 'rand'))}, exits=lambda k, r_: {'ver', 'view'} if k == 'ret' else None, targets=[('view keys encrypted', enc, {'iv'})], no_inline=CN + (WG + 'incIv',))

    # ---- R5: initialisation vectors
    isinc = lambda ev: ev.kind == 'call' and ev.name in ('incIv', 'incNextIv')
    # a chacha8 call uses up a vector where it encrypts: with a vector taken from nextIv
    uses = lambda ev: enc(ev) or ev.kind == 'call' and ev.name == 'chacha8' and len(ev.args) >= 4 and has(ev.args[3], lambda t: isf(t, 'nextIv'))
    users = [f for f in F.fns.values() if HERE(f) and f.name != 'encryptKeyPair' and any(x.startswith(WG + 'encryptKeyPair(') or 'chacha8(' in x for x in f.calls)]
    n = 0
    for f in sorted(users, key=lambda f: f.id):
        box = {'n': 0}

        def step(s, ev, box=box):
            if uses(ev):
                box['n'] += 1
                return (0, False) if s == 1 else (-1, s == -1)
            if isinc(ev):
                return (1 if s >= 0 else 0), False
            return s, False

        class Iv(Seq):
            def leave(self, st0, kind, ret, ev, st):
                if kind == 'ret' and st0 == -1 and self.final:
                    self.bad.append(ev)
        r = c_run(c, Iv(E, K, no_inline=(WG + 'encryptKeyPair', WG + 'incIv', WG + 'incNextIv', WG + 'saveWalletCache', WG + 'encryptAndSaveContainerData') if f.name != 'encryptAndSaveContainerData' else (WG + 'incIv',), on=step), f)
        if box['n']:
            n += 1
            for b_ in sorted({at(ev): ev for ev in r.bad}):
                c.bad('R5', 'every vector is used once', b_, construct='vector in ' + f.qn)
            if not r.bad:
                c.ok('R5', 'every vector is used once', where(f))
    if n < 4:
        c.bad('R5', 'the encryptions are found', where(q('incNextIv')), construct='encryptions')
    for f in F.q(WG + 'encryptKeyPair'):
        if len(param_types(f.id)) == 5:
            c.gates('R5', f, K, {'iv': 'the vector is stored with the record'}, br={}, ev={'iv': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'iv') and has(ev.rhs, par(4))}, exits=lambda k, r_: {'iv'} if k == 'ret' else None)
            ch = c_run(c, Hits(E, K, cl('chacha8')), f).hits
            c.check(bool(ch) and all(has(ev.args[2], par(3)) and (has(ev.args[3], par(4)) or isf(ev.args[3], 'iv')) for ev in ch), 'R5', 'the record is encrypted with the given key and vector', at(ch[0]) if ch else where(f), construct='chacha8 in ' + f.qn)
        else:
            e_ = c_run(c, Hits(E, K, enc, no_inline=(WG + 'encryptKeyPair', WG + 'getNextIv')), f).hits
            c.check(bool(e_) and all(isf(ev.args[3], 'm_key') and has(ev.args[4], lambda t: isc(t, 'getNextIv')) for ev in e_), 'R5', 'a new record gets the key of the wallet and the next vector', at(e_[0]) if e_ else where(f), construct='encrypt in ' + f.qn)
    f = q('encryptAndSaveContainerData')
    sfx = c_run(c, Hits(E, K, lambda ev: ev.kind == 'call' and ev.name == 'operator()' and has(ev.term, lambda t: isf(t, 'nextIv')), no_inline=(WG + 'incIv',)), f).hits
    ch = c_run(c, Hits(E, K, cl('chacha8'), no_inline=(WG + 'incIv',)), f).hits
    c.check(bool(ch) and all(has(ev.args[2], par(1)) for ev in ch), 'R5', 'the cache is encrypted with the given key', at(ch[0]) if ch else where(f), construct='chacha8 in ' + f.qn)
    inc = q('incIv')
    i_ = c_run(c, Hits(E, K, lambda ev: ev.kind == 'write'), inc).hits
    c.check(bool(i_) and any(ev.op in ('++', '+=') or has(ev.rhs, lambda t: t[0] == 'bin' and t[1] == '+') or ev.rhs and 'arith' in str(ev.rhs) for ev in i_), 'R5', 'the vector is advanced', where(inc), construct='step in ' + inc.qn)
    ni = q('incNextIv')
    c.gates('R5', ni, K, {'inc': 'the vector of the file is advanced'}, br={}, ev={'inc': lambda ev: ev.kind == 'call' and ev.name == 'incIv' and has(ev.args[0], lambda t: isf(t, 'nextIv'))}, exits=lambda k, r_: {'inc'} if k == 'ret' else None, no_inline=(WG + 'incIv',))

    # ---- R6: addresses
    aw, da = q('addWallet'), q('deleteAddress')
    AN = tuple(WG + x for x in ('encryptKeyPair', 'incNextIv', 'getTrackingMode', 'initBlockchain'))
    stored = on('m_containerStorage', 'push_back', 'emplace_back')
    known = lambda t: isc(t, 'find') and has(t, par(0))
    noaddr = lambda a, p, ev: eq(a, p, known, lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 0
    c.gates('R6', aw, K, {'new': 'the address is new'}, br={'new': noaddr}, ev={}, targets=[('address stored', stored, {'new'})], no_inline=AN)
    follow(c, 'R6', 'a known address is refused', aw, K, None, trig_br=lambda a, p, ev: ne(a, p, known, lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1, done=lambda ev: ev.kind == 'throw', exits=okret, no_inline=AN, again=True)
    sub = lambda ev: ev.kind == 'call' and ev.name == 'addSubscription'
    indexed = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace') and ev.obj is not None and has(ev.obj, lambda t: isf(t, 'm_walletsContainer'))
    obs = lambda ev: ev.kind == 'call' and ev.name == 'addObserver'
    for what, d in (('a stored address is subscribed', sub), ('a stored address is observed', obs), ('a stored address is indexed', indexed)):
        follow(c, 'R6', what, aw, K, stored, done=d, no_inline=AN)
    class Mixed(Rule):
        init = (None, None)

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, AN
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n = [], 0

        def branch(self, f, a, p, ev):
            if f is None:
                return f
            md, sc = f
            g_ = lambda t: isc(t, 'getTrackingMode')
            for nm in ('TRACKING', 'NOT_TRACKING', 'NO_ADDRESSES'):
                if is_enum(a, p, g_, nm):
                    if isinstance(md, str) and md != nm or not isinstance(md, str) and nm in (md or ()):
                        return None   # contradicts what this path knows
                    md = nm
                elif not_enum(a, p, g_, nm):
                    if md == nm:
                        return None
                    md = md if isinstance(md, str) else (md or frozenset()) | {nm}
            z = lambda t: 'NULL_SECRET_KEY' in str(t)
            for v, cmp_ in ((0, eq), (1, ne)):
                if cmp_(a, p, par(1), z):
                    if sc == 1 - v:
                        return None
                    sc = v
            return (md, sc)

        def event(self, f, ev, st_):
            if stored(ev):
                self.n += 1
            if ev.kind == 'throw' and 'WRONG_PARAMETERS' in str(ev.term) and self.final:
                self.out.add(f)
            return f
    r = Mixed()
    r.out = set()
    c.run(r, aw)
    c.check(r.n and {('TRACKING', 1), ('NOT_TRACKING', 0)} <= r.out, 'R6', 'an address is stored only in a wallet of its kind', where(aw), construct='kind of address in ' + aw.qn)

    class Undo(Rule):
        """after the record was stored and the vector advanced, an exception removes the record"""
        exc = 'try'
        init = 0

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, AN
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n = [], 0

        def event(self, f, ev, st_):
            if sub(ev):
                self.n += 1
                return 1
            if f == 1 and ev.kind == 'catch':
                return 2
            if f == 2 and on('m_containerStorage', 'pop_back', 'erase')(ev):
                return 3
            return f

        def leave(self, f, kind, ret, ev, st_):
            if kind == 'exc' and f == 2 and self.final:
                self.bad.append(ev)
            if kind == 'ret' and f in (2, 3) and self.final:
                self.bad.append(ev)
    r = c_run(c, Undo(), aw)
    c.check(r.n and not r.bad, 'R6', 'a failed address is removed from the file and told', at(r.bad[0]) if r.bad else where(aw), construct='failure in ' + aw.qn)
    subs = [('R6', aw)]
    for f in (aw, q('subscribeWallets')):
        for fld in ('spendPublicKey', 'viewPublicKey', 'viewSecretKey', 'spendSecretKey'):
            w_ = c_run(c, Hits(E, K, lambda ev: ev.kind == 'write' and isf(ev.lhs, fld) and has(ev.lhs, lambda t: isf(t, 'keys')), no_inline=AN), f).hits
            src = (lambda t: isf(t, 'm_' + fld)) if fld.startswith('view') else (lambda t: isf(t, fld) or par(0 if fld == 'spendPublicKey' else 1)(t))
            c.check(bool(w_) and all(has(ev.rhs, src) for ev in w_), 'R6', 'the subscription has the %s of the address' % fld, at(w_[0]) if w_ else where(f), construct='%s in %s' % (fld, f.qn))
    c.each('R6', 'every address is subscribed', q('subscribeWallets'), K, lambda t: has(t, lambda x: isf(x, 'm_walletsContainer')), done=sub, exits=okret)
    found = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end'))
    DN = tuple(WG + x for x in ('deleteContainerFromUnlockTransactionJobs', 'deleteTransfersForAddress', 'deleteFromUncommitedTransactions', 'stopBlockchainSynchronizer', 'startBlockchainSynchronizer', 'parseAddress', 'pushEvent', 'getWalletRecord'))
    erased = on('m_walletsContainer', 'erase')
    ferase = on('m_containerStorage', 'erase')
    less = lambda fm, fr: (lambda ev: ev.kind == 'write' and isf(ev.lhs, fm) and ev.op == '-=' and isf(ev.rhs, fr) or ev.kind == 'write' and isf(ev.lhs, fm) and has(ev.rhs, lambda t: isf(t, fr)))
    c.gates('R6', da, K, {'found': 'the address is known', 'stop': 'the synchroniser is stopped'}, br={'found': found}, ev={'stop': cl('stopBlockchainSynchronizer')}, targets=[('address removed', erased, {'found', 'stop'}), ('record removed', ferase, {'found', 'stop'}), ('subscription removed', cl('removeSubscription'), {'found', 'stop'})], no_inline=DN, min_sites=3)
    bal = {'b%d' % i: less(a_, b_) for i, (a_, b_) in enumerate((('m_actualBalance', 'actualBalance'), ('m_pendingBalance', 'pendingBalance'), ('m_lockedDepositBalance', 'lockedDepositBalance'), ('m_unlockedDepositBalance', 'unlockedDepositBalance')))}
    lab = {'b0': 'its balance is subtracted', 'b1': 'its pending balance is subtracted', 'b2': 'its locked deposits are subtracted', 'b3': 'its unlocked deposits are subtracted'}
    c.gates('R6', da, K, dict(lab, sub='its subscription is removed', mem='it is removed from the index', file='it is removed from the file', jobs='its unlock jobs are removed', tr='its transfers are removed', un='its unsent transactions are removed'), br={},
            ev=dict(bal, sub=cl('removeSubscription'), mem=erased, file=ferase, jobs=cl('deleteContainerFromUnlockTransactionJobs'), tr=cl('deleteTransfersForAddress'), un=cl('deleteFromUncommitedTransactions')), exits=lambda k, r_: set(bal) | {'sub', 'mem', 'file', 'jobs', 'tr', 'un'} if k == 'ret' else None, targets=[('address removed', erased, set(bal) | {'jobs'})], no_inline=DN)
    fe = c_run(c, Hits(E, K, ferase, no_inline=DN), da).hits
    c.check(bool(fe) and all(has(ev.term, lambda t: isc(t, 'distance')) or has(ev.term, lambda t: isc(t, 'project')) for ev in fe), 'R6', 'the record of the address itself is removed', at(fe[0]) if fe else where(da), construct='record in ' + da.qn)
    dist = lambda t: isc(t, 'distance')
    for nm, tp in (('createAddress', 'SecretKey'), ('createAddress', 'PublicKey')):
        f = [g for g in F.q(WG + nm) if tp in g.id]
        if len(f) != 1:
            c.bad('R6', 'an address is made from a key', where(aw), construct='createAddress')
            continue
        c.gates('R6', f[0], K, {'key': 'the key is valid'}, br={'key': tr('secret_key_to_public_key') if tp == 'SecretKey' else tr('check_key')}, ev={}, targets=[('address made', cl('doCreateAddress'), {'key'})], no_inline=(WG + 'doCreateAddress',))
    cal = q('createAddressList')
    c.gates('R6', cal, K, {'key': 'the key is valid'}, br={'key': tr('secret_key_to_public_key')}, ev={}, fresh=lambda a, p, ev: lt(a, p, lambda t: True, lambda t: isc(t, 'size') and has(t, par(0))), targets=[('key taken', lambda ev: ev.kind == 'write' and isf(ev.lhs, 'spendPublicKey'), {'key'})], no_inline=(WG + 'doCreateAddressList',))
    dl = q('doCreateAddressList')
    c.each('R6', 'every address is added', dl, K, par(0), done=cl('addWallet'), exits=okret, no_inline=LN + (WG + 'addWallet', WG + 'save', WG + 'shutdown', WG + 'load'))

    # ---- R7: saving
    SN = LN + (WG + 'copyContainerStoragePrefix', WG + 'copyContainerStorageKeys', WG + 'addWallet', WG + 'save', WG + 'shutdown', WG + 'load')
    stop, start = cl('stopBlockchainSynchronizer'), cl('startBlockchainSynchronizer')

    class Restart(Rule):
        exc = 'try'
        init = 0

        def __init__(self, work):
            self.E, self.keys, self.no_inline, self.work = E, K, SN, work
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n, self.early, self.types = [], 0, [], set()

        def event(self, f, ev, st_):
            if ev.kind == 'catch' and f in (1, 2):
                self.types.add(str(ev.type))
                return 5
            if stop(ev):
                return 1
            if start(ev):
                return 3
            if self.work(ev):
                self.n += 1
                if f != 1 and f != 2 and self.final:
                    self.early.append(ev)
                return 2
            return f

        def leave(self, f, kind, ret, ev, st_):
            if (f == 5 or f == 2 and (kind == 'ret' or not any('std::exception' in t or '...' in t for t in self.types))) and self.final:
                self.bad.append(ev)
    for f, work in ((q('save'), cl('saveWalletCache')), (q('exportWallet'), cl('saveWalletCache', 'copyContainerStorageKeys', 'copyContainerStoragePrefix')), (dl, cl('addWallet'))):
        r = c_run(c, Restart(work), f)
        c.check(r.n and not r.early, 'R7', 'the synchroniser is stopped meanwhile', at(r.early[0]) if r.early else where(f), construct='stop in ' + f.qn)
        c.check(r.n and not r.bad, 'R7', 'the synchroniser is restarted on every way out', at(r.bad[0]) if r.bad else where(f), construct='restart in ' + f.qn)
    sv = q('save')

    class Told(Rule):
        exc = 'try'
        init = 0

        def __init__(self):
            self.E, self.keys, self.no_inline = E, K, SN
            self.max_depth = 3
            self.reset()

        def reset(self):
            self.bad, self.n = [], 0

        def event(self, f, ev, st_):
            if cl('saveWalletCache')(ev):
                self.n += 1
                return 1
            if ev.kind == 'catch' and f == 1:
                return 2
            if ev.kind == 'call' and ev.name == 'notify' and 'saveCompleted' in str(ev.term):
                err = has(ev.term, lambda t: isc(t, 'make_error_code'))
                if (err and f != 2 or not err and f != 1) and self.final:
                    self.bad.append(ev)
                return 4 if err else 3
            return f

        def leave(self, f, kind, ret, ev, st_):
            if (kind == 'ret' and f != 3 or kind == 'exc' and f == 2) and self.final:
                self.bad.append(ev)
    r = c_run(c, Told(), sv)
    c.check(r.n and not r.bad, 'R7', 'the outcome of a save is reported as it is', at(r.bad[0]) if r.bad else where(sv), construct='report in ' + sv.qn)
    wc = q('saveWalletCache')
    WN = (WG + 'encryptAndSaveContainerData', WG + 'filterOutTransactions')
    ser = lambda ev: ev.kind == 'call' and ev.name == 'save' and 'WalletSerializerV2' in (ev.qn or '')
    c.gates('R7', wc, K, {'ser': 'the cache is serialised', 'enc': 'the cache is encrypted into the file', 'flush': 'the file is flushed'}, br={}, ev={'ser': ser, 'enc': lambda ev: ev.kind == 'call' and ev.name == 'encryptAndSaveContainerData' and has(ev.args[0], par(0)) and has(ev.args[1], par(1)), 'flush': lambda ev: ev.kind == 'call' and ev.name == 'flush' and ev.obj is not None and has(ev.obj, par(0))}, exits=lambda k, r_: {'ser', 'enc', 'flush'} if k == 'ret' else None,
            targets=[('cache encrypted', cl('encryptAndSaveContainerData'), {'ser'}), ('file flushed', lambda ev: ev.kind == 'call' and ev.name == 'flush', {'enc'})], no_inline=WN)
    s_ = c_run(c, Hits(E, K, ser, no_inline=WN), wc).hits
    c.check(bool(s_) and all(has(ev.args[1], par(2)) for ev in s_), 'R7', 'the cache is saved at the level asked for', at(s_[0]) if s_ else where(wc), construct='level in ' + wc.qn)
    for lv in ('SAVE_KEYS_AND_TRANSACTIONS', 'SAVE_ALL'):
        follow(c, 'R7', 'the transactions are saved at level ' + lv, wc, K, None, trig_br=lambda a, p, ev: is_enum(a, p, par(2), lv), done=cl('filterOutTransactions'), no_inline=WN, again=True)
    ew = q('exportWallet')
    copyto = lambda n_: (lambda ev: ev.kind == 'call' and ev.name == n_ and isf(ev.args[0], 'm_containerStorage') and isf(ev.args[1], 'm_key') and not has(ev.args[2], store))
    c.gates('R7', ew, K, {'prefix': 'the view keys are exported', 'keys': 'the spend keys are exported', 'cache': 'the cache is exported'}, br={}, ev={'prefix': copyto('copyContainerStoragePrefix'), 'keys': copyto('copyContainerStorageKeys'), 'cache': lambda ev: ev.kind == 'call' and ev.name == 'saveWalletCache' and not has(ev.args[0], store)},
            exits=lambda k, r_: {'prefix', 'keys', 'cache'} if k == 'ret' else None, no_inline=SN, targets=[('export kept', lambda ev: ev.kind == 'call' and ev.name == 'cancel', {'prefix', 'keys', 'cache'})])
    e_ = c_run(c, Hits(E, K, lambda ev: copyto('copyContainerStorageKeys')(ev) or copyto('copyContainerStoragePrefix')(ev) or ev.kind == 'call' and ev.name == 'saveWalletCache', no_inline=SN), ew).hits
    keys_ = {str(ev.args[1 if ev.name == 'saveWalletCache' else 3]) for ev in e_}
    r = c_run(c, Asked(E, K, SN, lambda a, p, ev: flag(a, p, par(2)) == 1, lambda a, p, ev: flag(a, p, par(2)) == 0, lambda ev: ev.kind == 'write' and ev.rhs is not None and isf(ev.rhs, 'm_key') or ev.kind == 'call' and ev.name == 'operator=' and has(ev.term, lambda t: isf(t, 'm_key')) or ev.kind == 'decl' and ev.term is not None and isf(strip(ev.term), 'm_key'), None), ew)
    c.check(r.n and not r.bad, 'R7', 'an encrypted export has the key of the wallet', at(r.bad[0]) if r.bad else where(ew), construct='key in ' + ew.qn)
    cv = q('convertAndLoadWalletFile')
    ren = lambda ev: ev.kind == 'call' and ev.name == 'rename' and (ev.qn or '').startswith('boost::filesystem')
    vren = on('m_containerStorage', 'rename')
    c.gates('R7', cv, K, {'view': 'the view keys are stored', 'cache': 'the cache is stored', 'bak': 'the old file is kept'}, br={}, ev={'view': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'encryptedViewKeys'), 'cache': cl('saveWalletCache'), 'bak': lambda ev: ren(ev) and has(ev.args[0], par(0))}, targets=[('old file moved', lambda ev: ren(ev) and has(ev.args[0], par(0)), {'view', 'cache'}), ('new file moved', vren, {'view', 'cache', 'bak'})], no_inline=SN + CN + (WG + 'incNextIv',))
    c.each('R7', 'every address of an old file is stored', cv, K, lambda t: has(t, lambda x: isf(x, 'm_walletsContainer')), done=stored, exits=okret, no_inline=SN + CN + (WG + 'incNextIv',))
    follow(c, 'R7', 'an old file that cannot be replaced is put back', cv, K, None, trig_br=lambda a, p, ev: p == 1 and has(a, lambda t: t[0] in ('out', 'obj') and 'rename' in str(t)) or truth_of(a, p, 'operator bool') == 1, done=ren, exits=lambda k, r_: True, no_inline=SN + CN + (WG + 'incNextIv',), again=True)

    # ---- R8: the file
    fv = 'common::FileMappedVector::'
    inst = lambda n_: sorted((f for f in F.fns.values() if f.qn == fv + n_ and FILE(f) and '$lambda' not in f.id), key=lambda f: f.id)
    au = inst('atomicUpdate0')
    if not au:
        c.bad('R8', 'the file is replaced at once', where(cp), construct='atomicUpdate0')
    this = lambda ev: ev.obj is not None and isf(ev.obj, 'm_file')
    KF = lambda f: False
    for f in au:
        fill = lambda ev: ev.kind == 'call' and (ev.name == 'operator()' and has(ev.term, par(3)) or ev.term[0] == 'icall' and has(ev.term, par(3)))
        flush_ = lambda ev: ev.kind == 'call' and ev.name == 'flush'
        bak = lambda ev: ev.kind == 'call' and ev.name == 'rename' and ev.obj is not None and isf(ev.obj, 'm_file') and len(ev.args) == 1
        new = lambda ev: ev.kind == 'call' and ev.name == 'rename' and ev.obj is not None and not isf(ev.obj, 'm_file')
        back = lambda ev: ev.kind == 'call' and ev.name == 'rename' and ev.obj is not None and isf(ev.obj, 'm_file') and len(ev.args) == 2
        sw = lambda ev: ev.kind == 'call' and ev.name == 'swap'
        good_ = lambda a, p, ev: p == 0 and has(a, lambda t: t[0] == 'out' and 'rename' in str(t)) or truth_of(a, p, 'operator bool') == 0
        c.gates('R8', f, KF, {'fill': 'the new file is filled', 'flush': 'the new file is flushed', 'bak': 'the old file is kept aside', 'new': 'the new file is in place', 'ok': 'the new file was put in place'}, br={'ok': good_}, ev={'fill': fill, 'flush': flush_, 'bak': bak, 'new': new},
                targets=[('new file flushed', flush_, {'fill'}), ('old file moved', bak, {'fill', 'flush'}), ('new file moved', new, {'fill', 'flush', 'bak'}), ('vector replaced', sw, {'fill', 'flush', 'bak', 'new', 'ok'})], min_sites=3)
        follow(c, 'R8', 'an old file that could not be replaced is put back', f, KF, None, trig_br=lambda a, p, ev: p == 1 and has(a, lambda t: t[0] == 'out' and 'rename' in str(t)) or truth_of(a, p, 'operator bool') == 1, done=back, exits=lambda k, r_: True, again=True)
        follow(c, 'R8', 'a failed replacement is told', f, KF, None, trig_br=lambda a, p, ev: p == 1 and has(a, lambda t: t[0] == 'out' and 'rename' in str(t)) or truth_of(a, p, 'operator bool') == 1, done=lambda ev: ev.kind == 'throw', exits=okret, again=True)
        rm = lambda ev: ev.kind == 'call' and ev.name == 'remove' and has(ev.term, strc('.bak'))
        c.gates('R8', f, KF, {'ok': 'the vector is mapped to its own file'}, br={'ok': lambda a, p, ev: eq(a, p, lambda t: isc(t, 'path'), lambda t: isf(t, 'm_path'))}, ev={}, targets=[('old copy removed', lambda ev: ev.kind == 'call' and ev.name == 'remove', {'ok'})])
    for f in inst('push_back'):
        grow = lambda ev: ev.kind == 'write' and ev.op in ('++', '+=') and has(ev.lhs, lambda t: isc(t, 'sizePtr'))
        put = lambda ev: ev.kind == 'write' and has(ev.lhs, lambda t: isc(t, 'vectorDataPtr')) or ev.kind == 'call' and ev.name == 'operator=' and has(ev.term, lambda t: isc(t, 'vectorDataPtr'))
        c.gates('R8', f, KF, {'room': 'there is room', 'put': 'the element was written', 'flush': 'the element was flushed'}, br={'room': lambda a, p, ev: ne(a, p, lambda t: isc(t, 'capacity'), lambda t: isc(t, 'size')) or lt(a, p, lambda t: isc(t, 'size'), lambda t: isc(t, 'capacity'))}, ev={'room': cl('reserve'), 'put': put, 'flush': cl('flushElement')}, targets=[('element counted', grow, {'room', 'put', 'flush'}), ('element written', put, {'room'})])
        follow(c, 'R8', 'the size is flushed', f, KF, grow, done=cl('flushSize'))
    for f in inst('pop_back'):
        follow(c, 'R8', 'the size is flushed', f, KF, lambda ev: ev.kind == 'write' and ev.op in ('--', '-='), done=cl('flushSize'))
    if not inst('push_back'):
        c.bad('R8', 'elements are appended', where(aw), construct='push_back')
    for f in [g for g in inst('open') if len(param_types(g.id)) == 3]:
        mv = c_run(c, Hits(E, KF, lambda ev: ev.kind == 'call' and ev.name == 'rename' and len(ev.args) >= 2), f).hits
        if not mv:
            c.bad('R8', 'a kept copy is restored', where(f), construct='kept copy in ' + f.qn)
        for src_, dst_ in {(ev.args[0], ev.args[1]) for ev in mv}:
            ex_ = lambda v, x: (lambda a, p, ev: p == v and isc(strip(a), 'exists') and has(a, lambda t: t == x))
            c.gates('R8', f, KF, {'own': 'the file itself exists'}, br={'own': ex_(1, dst_)}, ev={}, targets=[('kept copy removed', lambda ev: ev.kind == 'call' and ev.name == 'remove', {'own'})])
            c.gates('R8', f, KF, {'gone': 'the file itself is missing', 'bak': 'a kept copy exists'}, br={'gone': ex_(0, dst_), 'bak': ex_(1, src_)}, ev={}, targets=[('kept copy restored', cl('rename'), {'gone', 'bak'})])
            here, gone_, kept_ = ex_(1, dst_), ex_(0, src_), (lambda ev: ev.kind == 'call' and ev.name == 'rename' and tuple(ev.args[:2]) == (src_, dst_))
            c.gates('R8', f, KF, {'safe': 'a missing file was restored from a kept copy, or there is none'}, br={'safe': lambda a, p, ev: here(a, p, ev) or gone_(a, p, ev)}, ev={'safe': kept_}, targets=[('vector opened', cl('open', 'create'), {'safe'})])
    for f in [g for g in inst('open') if len(param_types(g.id)) == 2]:
        met = lambda t: isc(t, 'size')
        big = lambda a, p, ev: leq(a, p, lambda t: has(t, lambda x: 'metadataSize' in str(x)) or t[0] == 'bin', met)
        c.gates('R8', f, KF, {'cap': 'the size is within the capacity'}, br={'cap': lambda a, p, ev: leq(a, p, lambda t: isc(t, 'size'), lambda t: isc(t, 'capacity'))}, ev={}, exits=lambda k, r_: {'cap'} if k == 'ret' else None)
        th = c_run(c, Hits(E, KF, lambda ev: ev.kind == 'throw'), f).hits
        c.check(len(th) >= 3, 'R8', 'a file that is too small is refused', where(f), construct='file size in ' + f.qn)


def c_run(c, r, fn):
    c.run(r, fn)
    return r
