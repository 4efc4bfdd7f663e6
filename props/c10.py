"""Locks of the wallet, its synchronization and the node proxies."""
from .common import *
from sa.locks import Locks, Sections
from .c09 import fields_locked, walk_idx, only_from

META = dict(
    title='Wallet, synchronizer and node proxies stay consistent between threads',
    statement='State that the wallet, its transfer containers, the blockchain synchronizer and the node proxies share between the caller\'s threads, the synchronization thread and the node\'s thread is only accessed under the mutex that protects it or is atomic. No two mutexes are taken in both orders by threads that can run together, no non-recursive mutex is taken again by its holder, no thread joins another one while holding a mutex the other one takes, and wallet observers are called with no wallet mutex held. A thread that waits for a condition re-tests it after waking, and every change of the condition wakes it.',
    over=['interleavings'],
    qtext='every interleaving of the wallet\'s callers, the synchronization thread, observers and node callbacks; every call chain, including virtual calls and observer notifications',
    why='A wallet test drives one operation at a time and waits for its event; a lock-order inversion, a lost wake-up or an unlocked read shows only under an interleaving that a sampled run does not take.',
    files=['src/Transfers/BlockchainSynchronizer.cpp', 'src/Transfers/TransfersContainer.cpp', 'src/Transfers/TransfersConsumer.cpp', 'src/WalletLegacy/WalletLegacy.cpp', 'src/NodeRpcProxy/NodeRpcProxy.cpp', 'src/InProcessNode/InProcessNode.cpp', 'src/Common/BlockingQueue.h', 'src/Common/ObserverManager.h', 'src/Wallet/WalletAsyncContextCounter.cpp', 'src/crypto/crypto.cpp', 'src/crypto/crypto.h'],
    mechanism=[('synchronizer', 'BlockchainSynchronizer::m_consumersMutex, m_stateMutex, m_hasWork'), ('containers', 'TransfersContainer::m_mutex'), ('wallet', 'WalletLegacy::m_cacheMutex'), ('nodes', 'NodeRpcProxy::m_mutex, InProcessNode::mutex'), ('queue', 'BlockingQueue'), ('observers', 'tools::ObserverManager'), ('random', 'crypto::random_lock')],
    state=[('sync state', 'current and requested state, pending transactions', 'BlockchainSynchronizer::m_currentState, m_futureState, tasks'), ('consumers', 'what is synchronized', 'BlockchainSynchronizer::m_consumers'), ('transfers', 'outputs of an account', 'the containers of TransfersContainer'), ('wallet cache', 'transactions and deposits', 'WalletLegacy::m_transactionsCache')],
    observe=['absence of deadlock on shutdown and during synchronization', 'balances and histories read while blocks arrive', 'completion of waits'],
    technique='whole-program lockset and lock-order analysis with thread labels; wait/notify pairing over the CFG',
    level_note='Sound for the mutexes and call chains in the fact base, with observer notifications resolved to every observer; callbacks stored in std::function are treated as entered with no lock held. Phases in which the synchronization thread does not exist (before start, after stop) are labelled and not combined with it.',
)
MIN = 80
EXPLAIN = 'All functions of the fact base; obligations are one per (function, protected field), per pair of mutexes held together, per join, per observer notification, per shared atomic and per wait and wake-up.'

TC, BS, WL, NP, IN = 'cn::TransfersContainer', 'cn::BlockchainSynchronizer', 'cn::WalletLegacy', 'cn::NodeRpcProxy', 'cn::InProcessNode'
CM, SM, WM = BS + '::m_consumersMutex', BS + '::m_stateMutex', WL + '::m_cacheMutex'
LABELS = {'cn::Blockchain::init': 'startup', 'cn::core::init': 'startup', 'cn::core::deinit': 'startup', 'cn::Blockchain::deinit': 'startup', 'cn::Blockchain::resetAndSetGenesisBlock': 'startup', 'cn::tx_memory_pool::init': 'startup', 'cn::tx_memory_pool::deinit': 'startup',
          'cn::core::set_genesis_block': 'startup', 'cn::core::load_state_data': 'startup',
          BS + '::workingProcedure': 'worker', BS + '::addConsumer': 'stopped', BS + '::removeConsumer': 'stopped', BS + '::start': 'stopped', 'cn::TransfersSyncronizer::save': 'stopped', 'cn::TransfersSyncronizer::load': 'stopped'}
TABLE = {}
for n in ('m_currentHeight', 'm_availableTransfers', 'm_spentTransfers', 'm_unconfirmedTransfers', 'm_transactions', 'm_transfersUnlockJobs'):
    TABLE[(TC, n)] = TC + '::m_mutex'
for n in ('m_currentState', 'm_futureState', 'm_addTransactionTasks', 'm_removeTransactionTasks'):
    TABLE[(BS, n)] = SM
TABLE.update({(WL, 'm_transactionsCache'): WM, (NP, 'm_state'): NP + '::m_mutex', (IN, 'state'): IN + '::mutex', ('tools::ObserverManager', 'm_observers'): 'tools::ObserverManager::m_observersMutex',
              ('cn::WalletAsyncContextCounter', 'm_asyncContexts'): 'cn::WalletAsyncContextCounter::m_mutex', ('', 'public_keys_seen'): 'seen_mutex',
              ('BlockingQueue', 'm_queue'): 'BlockingQueue::m_mutex', ('BlockingQueue', 'm_closed'): 'BlockingQueue::m_mutex',
              ('cn::CryptoNoteProtocolHandler', 'm_observedHeight'): None})
TABLE = {k: v for k, v in TABLE.items() if v}
CONS = {(BS, 'm_consumers'): CM}

ATOMIC = {NP: ('m_peerCount', 'm_nodeHeight', 'm_networkHeight', 'm_lastLocalBlockTimestamp'),
          'cn::CryptoNoteProtocolHandler': ('m_synchronized', 'm_stop', 'm_peersCount', 'm_maxObjectCount'),
          'cn::NodeServer': ('m_stop',), 'cn::core': ('m_starter_message_showed',), 'cn::Blockchain': ('m_is_in_checkpoint_zone',),
          'cn::Miner': ('m_stop', 'm_template_no', 'm_starter_nonce', 'm_threads_total', 'm_pausers_count', 'm_last_hr_merge_time', 'm_hashes', 'm_current_hash_rate'),
          WL: ('m_lastNotifiedActualBalance', 'm_lastNotifiedPendingBalance', 'm_lastNotifiedActualDepositBalance', 'm_lastNotifiedPendingDepositBalance', 'm_lastNotifiedActualInvestmentBalance', 'm_lastNotifiedPendingInvestmentBalance'),
          'cn::BlockchainExplorer': ('state', 'synchronized', 'observersCounter'), 'GroupClose': ('m_count',), 'common::ConsoleHandler': ('m_stop',)}


def together(l1, l2):
    """can threads (or phases) with these labels run at the same time as different threads"""
    if 'startup' in (l1, l2):
        return False
    if l1 and l1 == l2:
        return False        # one synchronization thread; phases without it belong to the owner
    return {l1, l2} != {'worker', 'stopped'}


def check(c):
    F = c.F
    L = Locks(F, LABELS)
    c.rule('R1', 'lockset: at every access to a shared field, on every call chain, its mutex is held (constructors and destructors exempt; the set of consumers is changed only while the synchronizer is stopped)')
    c.rule('R2', 'no pair of mutexes is acquired in both orders by threads or phases that can run together; a non-recursive mutex is not acquired by its holder')
    c.rule('R3', 'no observer is called by ObserverManager under its own mutex, and the observers of the wallet, the node proxies and the protocol are notified with none of their mutexes held')
    c.rule('R4', 'a thread is joined with no mutex held that code of the joined thread acquires')
    c.rule('R5', 'fields shared without a mutex are atomic')
    c.rule('R6', 'a wait on a condition variable has a predicate or sits in a loop that re-tests, and every change of the condition is followed by a wake-up before the function returns')
    c.rule('R7', 'the synchronizer refuses to change its consumers or hand out their state unless it is stopped, and the wallet stops it before saving or closing')
    fields_locked(c, L, 'R1', TABLE)
    fields_locked(c, L, 'R1', CONS, exempt=('stopped',))
    # the random generator
    n = 0
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for cid, qn, hc, line, j in calls:
            if qn.split('::')[-1] == 'generate_random_bytes' and f.rel().startswith('src/crypto'):
                n += 1
                bad = [h for h, l in L.contexts(fid, hc) if 'crypto::random_lock' not in h]
                w = 'random bytes are drawn under the lock of the generator'
                if bad:
                    c.bad('R1', w, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda h, lb: 'crypto::random_lock' not in h), construct='random in %s' % f.qn)
                else:
                    c.ok('R1', w, '%s in %s' % (f.loc(line), f.qn))

    # R2
    rec = {fl[0] for q, r in F.records.items() for fl in r.get('fields', ()) if 'recursive' in fl[1]}
    pairs = {}
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for m, hc, line in acq:
            for h, l in L.contexts(fid, hc):
                if m in h:
                    if m not in rec and not m.startswith('logging::') and l != 'startup':
                        # locks are named by their field: two objects of a class would look alike
                        if m.rsplit('::', 1)[0] in ('tools::ObserverManager', 'BlockingQueue') or ' ' in m:
                            continue
                        c.bad('R2', '%s is taken again while it is held' % m, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda hh, lb, m=m: m in hh), construct='%s again in %s' % (m, f.qn))
                    continue
                for x in h:
                    pairs.setdefault((x, m), {}).setdefault(l, (fid, line, h))
    done = set()
    for (x, m) in sorted(pairs):
        if (m, x) in done:
            continue
        done.add((x, m))
        # a third lock held by both sides serialises them
        hit = None
        for l1, (f1, ln1, h1) in pairs[(x, m)].items():
            for l2, (f2, ln2, h2) in pairs.get((m, x), {}).items():
                if together(l1, l2) and not (h1 & h2):
                    hit = (f1, ln1, f2, ln2)
        if hit:
            f1, ln1, f2, ln2 = F.fns[hit[0]], hit[1], F.fns[hit[2]], hit[3]
            c.bad('R2', '%s and %s are taken in both orders (%s in %s and %s in %s)' % (x, m, f1.loc(ln1), f1.qn, f2.loc(ln2), f2.qn), '%s in %s' % (f1.loc(ln1), f1.qn),
                  L.witness(f1.id, lambda hh, lb, x=x: x in hh), construct='%s / %s' % (x, m))
        else:
            fid, line, h = sorted(pairs[(x, m)].values(), key=lambda t: (t[0], t[1]))[0]
            c.ok('R2', '%s and %s are taken in one order' % (x, m), '%s in %s' % (F.fns[fid].loc(line), F.fns[fid].qn))

    # R3
    own = {'tools::ObserverManager::m_observersMutex', WM, NP + '::m_mutex', IN + '::mutex', 'cn::CryptoNoteProtocolHandler::m_observedHeightMutex', SM}
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for cid, qn, hc, line, j in calls:
            if qn == '' and f.qn == 'tools::ObserverManager::notify':
                h = [h for h, l in L.contexts(fid, hc) if 'tools::ObserverManager::m_observersMutex' in h]
                c.check(not h, 'R3', 'an observer is called outside the mutex of the observer list', '%s in %s' % (f.loc(line), f.qn), construct='call in notify')
            elif qn == 'tools::ObserverManager::notify':
                who = next((e[4].rsplit('::', 1)[0] for e in L.walk(f, f.ex[j][5]) if e[0] == 'm'), '')
                mine = {m for m in own if m.rsplit('::', 1)[0] == who}
                if who not in (WL, NP, IN, 'cn::CryptoNoteProtocolHandler', BS):
                    continue
                bad = [h for h, l in L.contexts(fid, hc) if h & mine]
                if bad:
                    c.bad('R3', 'observers of %s are notified outside its mutex' % who, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda hh, lb: bool(hh & mine)), construct='notify in %s' % f.qn)
                else:
                    c.ok('R3', 'observers of %s are notified outside its mutex' % who, '%s in %s' % (f.loc(line), f.qn))

    # R4
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for cid, qn, hc, line, j in calls:
            if qn not in ('std::thread::join', BS + '::stop', 'cn::WalletAsyncContextCounter::waitAsyncContextsFinish'):
                continue
            bad = set()
            for h, l in L.contexts(fid, hc):
                bad |= {m for m in h if not (m == 'cn::Miner::m_threads_lock' and not worker_takes(F, L, 'cn::Miner::worker_thread', m))}
            c.check(not bad, 'R4', 'no mutex is held while waiting for another thread to end' + (' (%s is)' % sorted(bad)[0] if bad else ''), '%s in %s' % (f.loc(line), f.qn), construct='join in %s' % f.qn)

    # R5
    for cls, names in sorted(ATOMIC.items()):
        r = F.records.get(cls)
        if not r:
            continue
        ty = {fl[0].rsplit('::', 1)[-1]: fl[1] for fl in r['fields']}
        for n in names:
            if n in ty:
                c.check('atomic' in ty[n], 'R5', '%s::%s is atomic' % (cls, n), r.get('file', ''), construct='%s::%s' % (cls, n))

    waits(c, L)
    wakeups(c)
    stopped(c)


def worker_takes(F, L, root, m):
    cls = root.rsplit('::', 1)[0]
    seen, todo = set(), [f.id for f in F.byqn.get(root, ())]
    while todo:
        x = todo.pop()
        if x in seen or x not in F.fns:
            continue
        seen.add(x)
        if any(a[0] == m for a in L.info[x][2]):
            return True
        for cid, qn, hc, line, j in L.info[x][1]:
            for t in F.resolve(cid, True):
                if F.fns[t].cls == cls or F.fns[t].qn.startswith(root):
                    todo.append(t)
    return False


def waits(c, L):
    F = c.F
    n = 0
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for cid, qn, hc, line, j in calls:
            if not qn.startswith('std::condition_variable::wait'):
                continue
            if not f.rel().startswith('src/') or '/Platform/' in f.rel():
                continue
            n += 1
            e = f.ex[j]
            args = [a for a in e[6] if a is not None and a >= 0]
            need = 2 if qn.endswith('::wait') else 3
            ok = len(args) >= need
            if not ok:
                blk = [b for b, bb in f.blocks.items() if any(el[0] == 'E' and el[1] == j for el in bb.elems)]
                ok = bool(blk) and all(in_cycle(f, b) for b in blk)
            c.check(ok, 'R6', 'the condition is tested again after waking', '%s in %s' % (f.loc(line), f.qn), construct='wait in %s' % f.qn)
    if not n:
        c.broken('no condition variable waits found')


def in_cycle(f, b):
    seen, todo = set(), [s for s in f.blocks[b].succs if s is not None]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen or x not in f.blocks:
            continue
        seen.add(x)
        todo += [s for s in f.blocks[x].succs if s is not None]
    return False


def wakeups(c):
    F, E, m = c.F, c.E, c.m
    fld = lambda ev, *n: ev.kind == 'call' and (ev.name in MUT) and obj(ev, *n)
    MUT = ('push_back', 'emplace_back', 'push', 'emplace', 'insert', 'push_front', 'emplace_front')
    POP = ('pop_front', 'pop', 'erase', 'clear', 'pop_back')
    obj = lambda ev, *n: any(m.fld(ev.obj, x) for x in n)
    note = lambda var, *kinds: (lambda ev: ev.kind == 'call' and ev.name in kinds and m.fld(ev.obj, var))
    wr = lambda var: (lambda ev: ev.kind == 'write' and m.fld(ev.lhs, var))
    n = 0
    for f in F.bycls.get('BlockingQueue', ()):
        if f.name == 'push':
            follow(c, 'R6', 'adding to the queue wakes a reader', f, ['m_haveData', 'm_queue'], lambda ev: ev.kind == 'call' and ev.name in MUT and m.fld(ev.obj, 'm_queue'), note('m_haveData', 'notify_one', 'notify_all'))
        elif f.name == 'pop':
            follow(c, 'R6', 'taking from the queue wakes a writer', f, ['m_haveSpace', 'm_queue'], lambda ev: ev.kind == 'call' and ev.name in POP and m.fld(ev.obj, 'm_queue'), note('m_haveSpace', 'notify_one', 'notify_all'))
        elif f.name == 'close':
            follow(c, 'R6', 'closing the queue wakes all readers', f, ['m_haveData', 'm_closed'], wr('m_closed'), note('m_haveData', 'notify_all'))
            follow(c, 'R6', 'closing the queue wakes all writers', f, ['m_haveSpace', 'm_closed'], wr('m_closed'), note('m_haveSpace', 'notify_all'))
    for q, keys, trig, what in ((BS + '::addUnconfirmedTransaction', ['m_hasWork', 'm_addTransactionTasks'], lambda ev: ev.kind == 'call' and ev.name in MUT and m.fld(ev.obj, 'm_addTransactionTasks'), 'a queued transaction wakes the synchronization thread'),
                                (BS + '::removeUnconfirmedTransaction', ['m_hasWork', 'm_removeTransactionTasks'], lambda ev: ev.kind == 'call' and ev.name in MUT and m.fld(ev.obj, 'm_removeTransactionTasks'), 'a queued removal wakes the synchronization thread'),
                                (BS + '::setFutureStateIf', ['m_hasWork', 'm_futureState'], wr('m_futureState'), 'a requested state wakes the synchronization thread')):
        for f in F.byqn.get(q, ()):
            follow(c, 'R6', what, f, keys, trig, note('m_hasWork', 'notify_one', 'notify_all'))
    for f in F.byqn.get('cn::WalletAsyncContextCounter::delAsyncContext', ()):
        # only reaching zero must wake
        follow(c, 'R6', 'the last finished operation wakes the waiter', f, ['m_cv', 'm_asyncContexts'], lambda ev: ev.kind == 'write' and m.fld(ev.lhs, 'm_asyncContexts'), note('m_cv', 'notify_one', 'notify_all'),
               done_br=lambda a, p, ev: nonzero(m, a, p))
    for f in F.byqn.get(NP + '::shutdown', ()):
        follow(c, 'R6', 'the end of a shutdown wakes the waiters', f, ['m_state', 'm_cv_initialized'], lambda ev: wr('m_state')(ev) and 'NOT_INITIALIZED' in str(ev.rhs), note('m_cv_initialized', 'notify_all'))
    for f in F.byqn.get(NP + '::workerThread', ()):
        follow(c, 'R6', 'the end of initialisation wakes the waiters', f, ['m_state', 'm_cv_initialized'], wr('m_state'), note('m_cv_initialized', 'notify_all'))
    # the idle wait of the synchronizer tests every source of work
    for f in F.byqn.get(BS + '::actualizeFutureState', ()):
        for e in f.ex:
            if e[0] == 'c' and e[4] == 'std::condition_variable::wait':
                lam = [x[3] for a in e[6] for x in Locks.walk(LW, f, a) if x[0] == 'L']
                for l in lam:
                    g = F.fns.get(l)
                    used = {x[4].rsplit('::', 1)[-1] for x in g.ex if x[0] == 'm'} if g else set()
                    for need in ('m_futureState', 'm_removeTransactionTasks', 'm_addTransactionTasks'):
                        c.check(need in used, 'R6', 'the idle wait ends when %s has work' % need, '%s in %s' % (f.loc(e[2]), f.qn), construct='idle wait: %s' % need)


def nonzero(m, a, p):
    """the branch on which the counter is not zero"""
    s = strip(a)
    if m.fld(s, 'm_asyncContexts'):
        return p
    if s[0] == 'bin' and s[1] in ('==', '>', '!=', '<') and (m.fld(strip(s[2]), 'm_asyncContexts') or m.fld(strip(s[3]), 'm_asyncContexts')):
        return p if s[1] != '==' else not p
    return False


class _W:
    kids = Locks.kids


LW = _W()


def stopped(c):
    F, m = c.F, c.m
    for q, act in ((BS + '::addConsumer', ('insert', 'emplace')), (BS + '::removeConsumer', ('erase',)), (BS + '::getConsumerState', ('getConsumerSynchronizationState',)), (BS + '::getConsumerKnownBlocks', ('getConsumerSynchronizationState', 'getKnownBlockHashes'))):
        for f in F.byqn.get(q, ()):
            c.gates('R7', f, ['m_consumers', 'checkIfStopped', 'm_currentState'], {'stop': 'only while the synchronizer is stopped'},
                    br={'stop': lambda a, p, ev: (p and m.call(strip(a), 'checkIfStopped')) or is_stopped(m, a, p)},
                    targets=[('use of the consumers', lambda ev: ev.kind == 'call' and ev.name in act and (m.fld(ev.obj, 'm_consumers') or ev.qn.startswith(BS)), {'stop'})], no_inline=(BS + '::checkIfStopped',))
    for q, tgt in ((WL + '::doSave', ('cn::TransfersSyncronizer::save', BS + '::start')), (WL + '::shutdown', ('cn::TransfersSyncronizer::removeSubscription',))):
        for f in F.byqn.get(q, ()):
            c.gates('R7', f, ['m_blockchainSync', 'm_transfersSync'], {'stop': 'the synchronizer is stopped first'},
                    ev={'stop': lambda ev: ev.kind == 'call' and ev.qn == BS + '::stop'},
                    targets=[(t.rsplit('::', 1)[-1], lambda ev, t=t: ev.kind == 'call' and ev.qn in (t, t.replace('TransfersSyncronizer', 'ITransfersSynchronizer')), {'stop'}) for t in tgt], no_inline=(BS + '::*', 'cn::TransfersSyncronizer::*'))


def is_stopped(m, a, p):
    s = strip(a)
    return s[0] == 'bin' and s[1] in ('==', '!=') and 'm_currentState' in str(s) and 'stopped' in str(s) and (p == (s[1] == '=='))
