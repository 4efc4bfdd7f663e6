"""Locks of the core: blockchain, pool, miner."""
from .common import *
from sa.locks import Locks, Sections

META = dict(
    title='Chain and pool are only touched under their locks, in one order',
    statement='Once the node has started, every access to the state of the blockchain is made while holding the blockchain lock and every access to the state of the transaction pool while holding the pool lock, on every thread; the miner\'s shared template is accessed under its own lock. No thread waits for the pool lock while it holds only the blockchain lock, so the two cannot deadlock, and observers of the chain are notified with neither of them held. Operations that must see or change chain and pool together (adding a transaction, adding a block, building a template, answering a query for blocks) do so within one critical section.',
    over=['interleavings'],
    qtext='every interleaving of the threads that call into the core, the pool and the miner; every call chain from an entry point to an access',
    why='A test that runs one thread, or a few for a moment, cannot show that no interleaving tears a container or deadlocks; one access outside the lock among hundreds passes every test and corrupts memory years later.',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/Blockchain.h', 'src/CryptoNoteCore/TransactionPool.cpp', 'src/CryptoNoteCore/TransactionPool.h', 'src/CryptoNoteCore/Core.cpp', 'src/CryptoNoteCore/Miner.cpp', 'src/CryptoNoteCore/Miner.h'],
    mechanism=[('blockchain lock', 'Blockchain::m_blockchain_lock, LockedBlockchainStorage'), ('pool lock', 'tx_memory_pool::m_transactions_lock, lock, unlock, obtainGuard'), ('miner locks', 'Miner::m_template_lock, m_threads_lock, m_last_hash_rates_lock')],
    state=[('chain state', 'blocks, indexes, spent images, alternative chains', 'the containers of Blockchain'), ('pool state', 'transactions and indexes', 'the containers of tx_memory_pool'), ('miner template', 'block being mined', 'Miner::m_template, m_diffic')],
    observe=['answers of queries made while blocks arrive', 'absence of deadlock', 'consistency of chain and pool as seen together'],
    technique='whole-program lockset analysis (must-held mutexes per access, over all call chains), lock-order and critical-section analysis',
    level_note='Sound for the mutexes and call chains in the fact base; accesses through references handed out of a locked function are attributed to the function that obtains them. Start-up and shutdown, which run before and after the other threads, are exempt.',
)
MIN = 60
EXPLAIN = 'All functions of the fact base; lock sets are propagated over every call site, including virtual dispatch and lambdas; obligations are one per (function, protected field), per acquisition of the pool lock under the chain lock, per notification and per compound operation.'

CL, PL = 'cn::Blockchain::m_blockchain_lock', 'cn::tx_memory_pool::m_transactions_lock'
STARTUP = {q: 'startup' for q in ('cn::Blockchain::init', 'cn::core::init', 'cn::core::deinit', 'cn::Blockchain::deinit', 'cn::Blockchain::resetAndSetGenesisBlock', 'cn::tx_memory_pool::init', 'cn::tx_memory_pool::deinit',
                                  'cn::core::set_genesis_block', 'cn::core::load_state_data')}
CHAIN = ('m_alternative_chains', 'm_blockIndex', 'm_blocks', 'm_current_block_cumul_sz_limit', 'm_depositIndex', 'm_generatedTransactionsIndex', 'm_multisignatureOutputs', 'm_orthanBlocksIndex', 'm_outputs', 'm_paymentIdIndex',
         'm_spent_keys', 'm_timestampIndex', 'm_transactionMap', 'm_upgradeDetectorV2', 'm_upgradeDetectorV3', 'm_upgradeDetectorV4', 'm_upgradeDetectorV7', 'm_upgradeDetectorV8', 'm_is_in_checkpoint_zone')
POOL = ('m_transactions', 'm_fee_index', 'm_spent_key_images', 'm_spentOutputs', 'm_paymentIdIndex', 'm_timestampIndex', 'm_ttlIndex', 'm_recentlyDeletedTransactions')
TABLE = {('cn::Blockchain', f): CL for f in CHAIN}
TABLE.update({('cn::tx_memory_pool', f): PL for f in POOL})
TABLE.update({('cn::Miner', 'm_template'): 'cn::Miner::m_template_lock', ('cn::Miner', 'm_diffic'): 'cn::Miner::m_template_lock', ('cn::Miner', 'm_threads'): 'cn::Miner::m_threads_lock', ('cn::Miner', 'm_last_hash_rates'): 'cn::Miner::m_last_hash_rates_lock'})


def fields_locked(c, L, rid, table, exempt=()):
    """every access to a field of the table runs with its mutex held"""
    F = c.F
    per = {}
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        c.seen(f)
        for fld, hc, line, j in acc:
            cls, _, name = fld.rpartition('::')
            mx = table.get((cls, name))
            if mx is None or f.kind in ('ctor', 'dtor') and f.cls == cls:
                continue
            bad = {(h, l) for h, l in L.contexts(fid, hc) if mx not in h and l not in ('startup',) + tuple(exempt)}
            per.setdefault((fid, fld, mx), []).append((line, bad, hc))
    for (fid, fld, mx), l in sorted(per.items()):
        f = F.fns[fid]
        what = '%s is accessed with %s held' % (fld.split('::', 1)[-1], mx.rsplit('::', 1)[-1])
        bad = [x for x in l if x[1]]
        if not bad:
            c.ok(rid, what, '%s in %s' % (f.loc(l[0][0]), f.qn))
            continue
        line, cs, hc = bad[0]
        path = L.witness(fid, lambda h, lb: mx not in h and lb != 'startup' and lb not in exempt)
        c.bad(rid, what + ': not held when %s runs' % f.qn.split('::', 1)[1], '%s in %s' % (f.loc(line), f.qn), path, construct='%s in %s' % (fld, f.qn))
    return per


def calls_under(c, L, rid, fname, callee, locks, what, must=True):
    """calls of one operation inside a function, wherever in its helpers, run under the locks"""
    F = c.F
    n = 0
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for cid, qn, hc, line, j in calls:
            if qn not in callee:
                continue
            inside = f.qn == fname or only_from(F, L, fid, fname)
            if not inside:
                continue
            n += 1
            bad = [h for h, l in L.contexts(fid, hc) if l != 'startup' and not set(locks) <= h]
            w = '%s (%s)' % (what, qn.rsplit('::', 1)[-1])
            if bad:
                c.bad(rid, w, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda h, lb: not set(locks) <= h), construct='%s in %s' % (qn, fname))
            else:
                c.ok(rid, w, '%s in %s' % (f.loc(line), f.qn))
    return n


def only_from(F, L, fid, fname, depth=0):
    """the function is a helper reached only from the named one"""
    s = {x[0] for x in L.sites.get(fid, ())}
    return depth < 3 and bool(s) and all(F.fns[x].qn == fname or only_from(F, L, x, fname, depth + 1) for x in s)


def walk_idx(L, f, i):
    stack = [i]
    while stack:
        j = stack.pop()
        if j is not None and j >= 0:
            yield j
            stack.extend(L.kids(f.ex[j]))


ONE = {     # compound operations: at most one critical section per call
    CL: ('cn::Blockchain::addNewBlock', 'cn::Blockchain::findBlockchainSupplement', 'cn::Blockchain::handleGetObjects', 'cn::Blockchain::getBlocks', 'cn::Blockchain::getRandomOutsByAmount', 'cn::Blockchain::rollbackBlockchainTo',
         'cn::Blockchain::getDifficultyForNextBlock', 'cn::Blockchain::getBackwardBlocksSize', 'cn::Blockchain::getTransactionsWithOutputGlobalIndexes', 'cn::Blockchain::getTransactionOutputGlobalIndexes',
         'cn::Blockchain::getBlockByHash', 'cn::Blockchain::haveBlock', 'cn::Blockchain::getTailId', 'cn::Blockchain::buildSparseChain', 'cn::Blockchain::scanOutputKeysForIndexes', 'cn::Blockchain::getAlternativeBlocks',
         'cn::Blockchain::storeCache', 'cn::Blockchain::getBlockContainingTransaction', 'cn::Blockchain::getMultisigOutputReference', 'cn::Blockchain::getBlockHeight', 'cn::Blockchain::getAlreadyGeneratedCoins',
         'cn::Blockchain::getOrphanBlockIdsByHeight', 'cn::Blockchain::getBlockIdsByTimestamp', 'cn::Blockchain::getTransactionIdsByPaymentId', 'cn::Blockchain::get_out_by_msig_gindex', 'cn::Blockchain::isBlockInMainChain',
         'cn::core::add_new_tx', 'cn::core::queryBlocks', 'cn::core::queryBlocksLite', 'cn::core::getBlock', 'cn::core::findStartAndFullOffsets', 'cn::core::findIdsForShortBlocks', 'cn::core::get_blockchain_top',
         'cn::core::get_random_outs_for_amounts', 'cn::core::handle_get_objects', 'cn::core::get_blocks', 'cn::core::executeLocked'),
    PL: ('cn::core::add_new_tx', 'cn::core::getPoolChanges', 'cn::core::getPoolChangesLite', 'cn::core::executeLocked', 'cn::tx_memory_pool::take_tx', 'cn::tx_memory_pool::fill_block_template',
         'cn::tx_memory_pool::removeExpiredTransactions', 'cn::tx_memory_pool::get_difference', 'cn::tx_memory_pool::getTransactions', 'cn::tx_memory_pool::getTransactionIdsByPaymentId', 'cn::tx_memory_pool::getTransactionIdsByTimestamp',
         'cn::tx_memory_pool::on_idle'),
}


def check(c):
    F = c.F
    L = Locks(F, STARTUP)
    c.rule('R1', 'lockset: at every access to a protected field, on every call chain from an entry point, the mutex of the field is held; constructors, destructors and start-up/shutdown are exempt')
    c.rule('R2', 'lock order: the pool lock is never waited for with the blockchain lock held unless the pool lock is held already; no core lock is taken in both orders with another one')
    c.rule('R3', 'chain observers are notified with neither the blockchain nor the pool lock held')
    c.rule('R4', 'a compound operation enters at most one critical section of the lock on any path, and the operations that span chain and pool run with both held')
    per = fields_locked(c, L, 'R1', TABLE)
    for (cls, name), mx in sorted(TABLE.items()):
        if not any(fld == cls + '::' + name for _, fld, _ in per):
            c.check(True, 'R1', '%s is not accessed anywhere' % name)

    # R2
    core = {CL, PL, 'cn::Miner::m_template_lock', 'cn::Miner::m_threads_lock', 'cn::Miner::m_last_hash_rates_lock', 'cn::Miner::m_miners_count_lock'}
    pairs = {}
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for m, hc, line in acq:
            if m not in core:
                continue
            for h, l in L.contexts(fid, hc):
                if l == 'startup' or m in h:
                    continue
                for x in h:
                    pairs.setdefault((x, m), []).append((fid, line, h))
                pairs.setdefault((None, m), []).append((fid, line, h))
    for (x, m), l in sorted(pairs.items(), key=str):
        if x is None:
            c.ok('R2', '%d acquisitions of %s checked' % (len(l), m.rsplit('::', 1)[-1]))
            continue
        fid, line, h = l[0]
        f = F.fns[fid]
        what = '%s is not waited for with %s held' % (m.rsplit('::', 1)[-1], x.rsplit('::', 1)[-1])
        if (x, m) == (CL, PL) or (m, x) in pairs and (x, m) != (PL, CL):
            c.bad('R2', what, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda hh, lb, x=x, m=m: x in hh and m not in hh), construct='%s under %s in %s' % (m, x, f.qn))
        else:
            c.ok('R2', '%s before %s' % (x.rsplit('::', 1)[-1], m.rsplit('::', 1)[-1]), '%s in %s' % (f.loc(line), f.qn))
    # non-recursive mutexes are not taken again while held
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        for m, hc, line in acq:
            if m.startswith('cn::Miner::') and any(m in h for h, l in L.contexts(fid, hc)):
                c.bad('R2', '%s is not recursive and is taken again while held' % m, '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda hh, lb: m in hh), construct='%s again in %s' % (m, f.qn))

    # R3
    n = 0
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        if f.cls != 'cn::Blockchain' and f.kind != 'lambda' or 'cn::Blockchain' not in f.qn:
            continue
        for cid, qn, hc, line, j in calls:
            if qn != 'tools::ObserverManager::notify' or not any(e[0] == 'm' and e[4] == 'cn::Blockchain::m_observerManager' for e in L.walk(f, f.ex[j][5])):
                continue
            n += 1
            bad = [h for h, l in L.contexts(fid, hc) if l != 'startup' and (CL in h or PL in h)]
            if bad:
                c.bad('R3', 'chain observers are notified outside the locks', '%s in %s' % (f.loc(line), f.qn), L.witness(fid, lambda hh, lb: CL in hh or PL in hh), construct='notify in %s' % f.qn)
            else:
                c.ok('R3', 'chain observers are notified outside the locks', '%s in %s' % (f.loc(line), f.qn))
    if not n:
        c.bad('R3', 'chain observers are notified somewhere', 'src/CryptoNoteCore/Blockchain.cpp', construct='no notification')

    # R4
    for m, names in sorted(ONE.items()):
        S = Sections(L, m)
        for q in names:
            for f in F.byqn.get(q, ()):
                k = S.of(f.id)
                c.check(k < 2, 'R4', '%s sees one state: a single critical section of %s' % (f.qn.split('::', 1)[1], m.rsplit('::', 1)[-1]), f.loc(), construct='%s in %s' % (m.rsplit('::', 1)[-1], f.qn))
    both = (CL, PL)
    n = calls_under(c, L, 'R4', 'cn::core::add_new_tx', ('cn::Blockchain::haveTransaction', 'cn::tx_memory_pool::have_tx', 'cn::tx_memory_pool::add_tx'), both, 'a new transaction is checked against chain and pool and added under both locks')
    n += calls_under(c, L, 'R4', 'cn::Blockchain::addNewBlock', ('cn::Blockchain::pushBlock', 'cn::Blockchain::handle_alternative_block', 'cn::Blockchain::haveBlock'), both, 'a block is added with chain and pool locked')
    n += calls_under(c, L, 'R4', 'cn::core::get_block_template', ('cn::Blockchain::getCurrentBlockchainHeight', 'cn::Blockchain::getTailId', 'cn::Blockchain::getDifficultyForNextBlock', 'cn::Blockchain::getCurrentCumulativeBlocksizeLimit', 'cn::Blockchain::getCoinsInCirculation'), (CL,), 'the chain data of a template are read under one lock')
    if n < 6:
        c.broken('compound operations: only %d operations found' % n)
    for fid, (acc, calls, acq) in L.info.items():
        f = F.fns[fid]
        at = {j: hc for fld, hc, line, j in acc if fld == 'cn::Miner::m_template_no'}
        for i, e in enumerate(f.ex):
            if e[0] == 'b' and e[3] == '=' or e[0] == 'c' and e[4].endswith('::operator='):
                src = [e[5]] if e[0] == 'b' else e[6]
                for j in (x for s in src for x in walk_idx(L, f, s)):
                    if j in at:
                        c.check(all('cn::Miner::m_template_lock' in h for h, l in L.contexts(fid, at[j])), 'R4', 'the number of a template is recorded in the critical section that copies it', '%s in %s' % (f.loc(e[2]), f.qn), construct='template number in %s' % f.qn)
    for q in ('cn::core::executeLocked',):
        for f in F.byqn.get(q, ()):
            for cid, qn, hc, line, j in L.info[f.id][1]:
                if qn.endswith('function::operator()') or qn.endswith('::operator()'):
                    h = [h for h, l in L.contexts(f.id, hc)]
                    c.check(all(set(both) <= x for x in h), 'R4', 'executeLocked runs its function under both locks', '%s in %s' % (f.loc(line), f.qn), construct='function in executeLocked')
