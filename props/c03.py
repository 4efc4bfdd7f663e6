from .common import *
from .c02 import flagged

META = dict(
    title='A block joins the main chain only after passing every validity rule',
    statement='A block becomes part of the main chain only if it is new, extends the tail, has the major version its height demands, a timestamp inside the allowed window, enough proof of work (or, inside the checkpoint zone, no contradiction to a checkpoint), a well-formed coinbase that claims no more than the reward, a cumulative size within the limit, and only transactions whose version, inputs and outputs were each checked. The sizes and fees that enter the size limit and the reward cover every transaction of the block and the coinbase. A block refused by one of these rules is reported as failed verification.',
    over=['inputs', 'histories'],
    qtext='every block offered in every chain state; every path of the block-adding code to an accepting return',
    why='Tests feed a handful of malformed blocks; a rule that is skipped on one path (a checkpoint shortcut, an early return, one transaction kind) lets an invalid block into consensus without any test noticing.',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/Checkpoints.cpp', 'src/CryptoNoteCore/Currency.cpp'],
    mechanism=[('the chain of checks before a block is stored', 'Blockchain::pushBlock(block, transactions, id, bvc)'), ('coinbase rules', 'Blockchain::prevalidate_miner_transaction, validate_miner_transaction'), ('checkpoint rule', 'Checkpoints::check_block')],
    state=[('main chain', 'accepted blocks', 'Blockchain::m_blocks')],
    observe=['block_verification_context of an offered block', 'chain height after the offer'],
    technique='path-sensitive guard domination over the CFG with helper inlining (leaf conditions, not helper names), per-element loop coverage',
    level_note='Decides that every accepting path has passed each check with the right operands; the arithmetic inside the difficulty, reward and median functions is not verified.',
)
MIN = 20
EXPLAIN = 'All CFG paths of the block-adding function with its helpers inlined down to the elementary comparisons; one obligation per elementary rule and accepting exit, per loop over the transactions and per refusing exit.'

BC = 'cn::Blockchain::'
LEAF = {'cn::BlockHeader::majorVersion', 'cn::BlockHeader::previousBlockHash', 'cn::BlockHeader::timestamp', 'cn::Checkpoints::m_points', 'cn::check_hash', 'cn::check_outs_valid', 'cn::check_outs_overflow',
        'cn::BaseInput::blockIndex', 'cn::Currency::maxBlockCumulativeSize', 'cn::Currency::getBlockReward', 'cn::get_block_longhash', BC + 'm_blocks', 'cn::Currency::minedMoneyUnlockWindow'}
STOP = (BC + 'getTailId', BC + 'get_block_major_version_for_height', BC + 'getDifficultyForNextBlock', BC + 'get_adjusted_time', 'common::medianValue', 'cn::check_hash', 'cn::check_outs_valid', 'cn::check_outs_overflow', BC + 'checkTransactionInputs',
        BC + 'check_tx_outputs', BC + 'pushTransaction', BC + 'popTransactions', BC + 'popTransaction', BC + 'pushToDepositIndex', BC + 'update_next_comulative_size_limit', 'cn::get_block_longhash', 'cn::get_block_hash', 'cn::toBinaryArray', 'cn::getObjectBinarySize', 'cn::getObjectHash',
        BC + 'getCurrentBlockchainHeight', BC + 'get_last_n_blocks_sizes', 'cn::BlockIndex::hasBlock', 'cn::Currency::getTransactionFee', 'cn::Currency::calculateTotalTransactionInterest', 'cn::Currency::getBlockReward', 'cn::get_block_height', 'cn::Currency::maxBlockCumulativeSize', 'cn::BasicUpgradeDetector*', 'cn::tx_memory_pool*', 'cn::ITransactionPool*', 'SwappedVector*')


def keys(f):
    return bool(LEAF & f.names) and 'UpgradeDetector' not in f.cls and 'SwappedVector' not in f.cls


def zone_in(m):
    H = lambda t: noff(t) and (m.call(t, 'getCurrentBlockchainHeight') or m.fld(t, 'm_blocks', 'height'))
    top = lambda t: noff(t) and m.fld(t, 'm_points') and m.fld(t, 'first')
    return H, top


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'every accepting exit of the block-adding function has passed each elementary rule')
    c.rule('R2', 'every transaction of the block was checked, and counted in size and fees, before acceptance')
    c.rule('R3', 'every refusing exit has reported failed verification')
    c.rule('R4', 'the version schedule: a version is answered only above the upgrade height of its detector and not above that of a later one')
    c.rule('R5', 'checkpoint lookup: a hash that differs from the checkpoint at its height is refused')
    c.rule('R6', 'a block enters the block list only through the analysed functions')
    fns = [f for f in F.q(BC + 'pushBlock') if any(v[2] == 'p' and 'std::vector<cn::Transaction' in f.types[v[1]] for v in f.vars)]
    if len(fns) != 1:
        c.broken('%d block-adding functions with a transaction list' % len(fns))
    fn = fns[0]
    vec = [v[3] for v in fn.vars if v[2] == 'p' and 'std::vector<cn::Transaction' in fn.types[v[1]]][0]
    bp = [v[3] for v in fn.vars if v[2] == 'p' and fn.types[v[1]].replace('const ', '').startswith('cn::Block &')][0]
    g = bgates(c)
    H, top = zone_in(m)
    inzone = lambda a, p: le(a, p, H, top)
    g['known'] = lambda a, p, ev: truth_of(a, p, 'hasBlock') == 0 or truth_of(a, p, 'haveBlock') == 0
    # the checkpoint comparison: a checkpoint at this height does not exist, or is equal
    pts = lambda t: m.fld(t, 'm_points')
    g['checkpoint'] = lambda a, p, ev: (absent(a, p, pts)
                                        or eq(a, p, lambda t: pts(t) and m.fld(t, 'second'), lambda t: m.param(t, None, 'crypto::Hash') or m.call(t, 'get_block_hash'))
                                        or lt(a, p, top, H) or is_empty(a, p, pts))
    pw = g['pow']
    g['pow'] = lambda a, p, ev: pw(a, p, ev) or inzone(a, p)
    # reward: the coinbase sum against the reward computed by getBlockReward
    rew = lambda t: m.has(t, lambda x: x[0] == 'out' and last(x[1]) == 'getBlockReward' and x[2] == 5)
    summ = lambda t: m.fld(t, 'amount') or m.fld(t, 'outputs')
    rew0 = rew
    rew = lambda t: noff(t) and rew0(t)
    nrew = lambda t: not rew0(t) and const_of(t) is None and noff(t)
    g['rewardcalc'] = lambda a, p, ev: truth_of(a, p, 'getBlockReward') == 1
    small = lambda t: isinstance(const_of(t), int) and const_of(t) <= 10
    g['rewardmax'] = lambda a, p, ev: le(a, p, nrew, rew) or le(a, p, lambda t: t[0] == 'op' and t[1] == '-' and rew(t[3]) and nrew(t[2]), small) or eq(a, p, rew, nrew)
    g['rewardmin'] = lambda a, p, ev: le(a, p, rew, nrew) or eq(a, p, rew, nrew) or lt(a, p, rew, nrew)
    text = dict(GTEXT, rewardcalc='the reward for its size and height can be computed', rewardmax='the coinbase claims at most the reward (plus the rounding slack of 10)', rewardmin='the coinbase claims the full reward')
    mmt = lambda a, p, ev: truth_of(a, p, 'getMergeMiningTagFromExtra') == 0 or lt(a, p, lambda t: m.fld(t, 'height') or m.has(t, lambda x: x[0] == 'out') or m.call(t, 'size'), lambda t: m.glob(t, 'UPGRADE_HEIGHT_V6'))
    need = {'known', 'version', 'prev', 'future', 'median', 'difficulty', 'pow', 'checkpoint', 'size', 'rewardcalc', 'rewardmax', 'rewardmin'} | set(MINER)
    c.gates('R1', fn, keys, text, br=g, exits=lambda k, r: need if succ(k, r) else None, no_inline=STOP, max_depth=6)
    c.gates('R1', fn, keys, text, br={'mm': mmt}, exits=lambda k, r: {'mm'} if succ(k, r) else None, no_inline=STOP, max_depth=6)
    # operands of the size and reward checks
    par = lambda t: m.param(t, vec)
    per = lambda what, **kw: c.each('R2', what, fn, keys, lambda t: t[0] == 'param' and t[1] == vec, exits=succ, no_inline=STOP, max_depth=6, **kw)
    per('the inputs of every transaction are checked', done_br=lambda a, p, ev: truth_of(a, p, 'checkTransactionInputs') == 1 and par(a))
    per('the outputs of every transaction are checked', done_br=lambda a, p, ev: truth_of(a, p, 'check_tx_outputs') == 1 and par(a))
    V1 = lambda t: const_of(t) == 1 or m.glob(t, 'TRANSACTION_VERSION_1', 'BLOCK_MAJOR_VERSION_1')
    per('the version of every transaction is allowed by the block version', done_br=lambda a, p, ev: le(a, p, lambda t: isf(t, 'version'), V1) or ne(a, p, lambda t: isf(t, 'majorVersion'), V1) or lt(a, p, V1, lambda t: isf(t, 'majorVersion')))
    # accumulators: which variables feed the size limit and the reward function
    acc = Accum(E, keys, STOP)
    c.run(acc, fn)
    size_fns = ('toBinaryArray', 'getObjectBinarySize')
    adds = lambda var, src: (lambda ev: ev.kind == 'write' and ev.lhs[0] == 'var' and (ev.op == '+=' or ev.op == '=' and selfsum(ev.rhs, var)) and ev.lhs[1] in var and m.call(ev.rhs, *src) and par(ev.rhs))
    names = lambda terms: {t[3] for t in terms for t in [stripc(t)] if t[0] == 'phi'}
    if not acc.size or not acc.rsize or not acc.rfee:
        c.bad('R2', 'the size limit and the reward are computed for the block', fn.loc(), construct='size limit or reward not reached')
    for what, terms, src in (('the size that is limited', acc.size, size_fns), ('the size the reward is computed from', acc.rsize, size_fns), ('the fees the reward is computed from', acc.rfee, ('getTransactionFee',))):
        for t in sorted(terms, key=str):
            v = names([t])
            if not v:
                c.bad('R2', '%s is accumulated over the transactions' % what, fn.loc(), construct='%s not accumulated' % what)
                continue
            per('%s counts every transaction' % what, done=adds(v, src))
            if src is size_fns:
                c.check(m.has(t, lambda x: x[0] == 'call' and last(x[1]) in size_fns and m.fld(x, 'baseTransaction')), 'R2', '%s counts the coinbase' % what, fn.loc(), construct='%s without coinbase' % what)
    # a transaction counts with its signatures
    whole, part = [], []
    szs = Calls(E, keys, STOP, lambda ev: ev.name in size_fns and ev.args and par(ev.args[0]), max_depth=6)
    c.run(szs, fn)
    for ev in szs.hits:
        (part if 'Prefix' in (ev.fid or '') else whole).append(ev)
    c.check(not part or whole, 'R2', 'the counted size of a transaction is its whole encoding, signatures included', part[0].loc() if part else fn.loc(), construct='prefix size in %s' % fn.qn)
    # the window of the main-chain timestamp rule
    pick = lambda ev: stripc(ev.args[0]) if ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.args and isf(ev.args[0], 'timestamp') and m.fld(ev.args[0], 'm_blocks') else None
    rr = Ranges(E, keys, pick, no_inline=STOP, max_depth=6)
    c.run(rr, fn)
    for ev, t in rr.hits:
        ph = [x for x in subterms(t) if x[0] == 'phi' and len(x) > 3 and x in rr.ranges or x[0] == 'phi' and any(const_of(v) == 0 for v in flat_alts(E, x))]
        for x in ph:
            offs = [lin(v) for v in flat_alts(E, x)]
            odd = [o for o in offs if o.get(1) and any(isinstance(s_, tuple) and s_[0] == 'call' and last(s_[1]) == 'timestampCheckWindow' for s_ in o)]
            c.check(not odd, 'R1', 'the timestamp window ends at the tail and has the length of the check window', ev.fn.loc(ev.line), construct='timestamp window')
    # coinbase sum over all outputs
    reach = {fn.id} | set(fn.calls)
    vm = [F.fns[x] for x in sorted(reach) if x in F.fns and F.fns[x].cls == 'cn::Blockchain' and any(e[0] == 'c' and e[4] == 'cn::Currency::getBlockReward' for e in F.fns[x].ex)]
    for f in vm:
        if f.name == 'getBlockReward':
            continue
        c.each('R2', 'every coinbase output is summed up', f, keys, lambda t: isf(t, 'outputs') and m.fld(t, 'baseTransaction'),
               done=lambda ev: ev.kind == 'write' and ev.op in ('+=', '=') and isf(ev.rhs, 'amount') or ev.kind == 'write' and ev.op == '=' and m.fld(ev.rhs, 'amount'), exits=succ, no_inline=STOP)
    # refusals are reported
    exempt = lambda a, p, ev: (p == 0 and isc(stripc(a), 'getDifficultyForNextBlock')) or truth_of(a, p, 'getMergeMiningTagFromExtra') == 1 or eq(a, p, lambda t: isc(t, 'getDifficultyForNextBlock'), lambda t: const_of(t) == 0)
    flagged(c, 'R3', fn, keys, STOP, exempt)
    outer = [f for f in F.q(BC + 'pushBlock') if f.id != fn.id and fn.id in f.calls]
    for f in outer:
        flagged(c, 'R3', f, keys, STOP + (fn.id,), lambda a, p, ev: truth_of(a, p, BC + 'pushBlock') == 0)
    schedule(c)
    # checkpoint function itself: found and different -> refused
    cb = [f for f in F.q('cn::Checkpoints::check_block') if 'cn::Checkpoints::m_points' in f.names]
    for f in cb:
        c.gates('R5', f, {'cn::Checkpoints::m_points'}, {'cp': 'a block is accepted only when there is no checkpoint at its height or the hashes are equal'},
                br={'cp': lambda a, p, ev: absent(a, p, lambda t: m.fld(t, 'm_points')) or eq(a, p, lambda t: m.fld(t, 'second') and m.param(t, 0) or m.fld(t, 'm_points') and m.fld(t, 'second'), lambda t: m.param(t, 1))},
                exits=lambda k, r: {'cp'} if succ(k, r) else None)
    # who stores blocks
    allowed = set()
    for f in F.cls('cn::Blockchain'):
        if f.parent or not any(e[0] == 'c' and e[4].split('::')[-1] in ('push_back', 'emplace_back') and e[5] >= 0 and f.ex[e[5]][0] == 'm' and f.ex[e[5]][4] == BC + 'm_blocks' for e in f.ex):
            continue
        callers = {g.id for g in F.fns.values() if f.id in g.calls}
        ok = f.id == fn.id or callers <= ({fn.id} | {g.id for g in F.cls('cn::Blockchain') if g.name in ('rebuildBlocks', 'init', 'rebuildCache', 'resetAndSetGenesisBlock')}) or f.name in ('rebuildBlocks',)
        c.check(ok, 'R6', 'blocks are stored by the analysed function only', '%s %s' % (f.loc(), f.qn), construct='store in ' + f.qn)


def selfsum(t, var):
    t = stripc(t)
    return t[0] == 'op' and t[1] == '+' and any(stripc(x)[0] == 'phi' and stripc(x)[3] in var for x in t[2:4])


class Accum(Rule):
    """terms that flow into the size limit and the reward function"""
    init = 0

    def __init__(self, E, keys, stop):
        self.E, self.keys, self.no_inline = E, keys, stop
        self.max_depth = 6
        self.reset()

    def reset(self):
        self.size, self.rsize, self.rfee = set(), set(), set()

    def event(self, f, ev, st):
        if ev.kind == 'call' and ev.name == 'getBlockReward' and len(ev.args) >= 5:
            self.rsize.add(stripc(ev.args[1]))
            self.rfee.add(stripc(ev.args[3]))
        return f

    def branch(self, f, a, p, ev):
        if a[0] == 'cmp' and a[1] in ('<=', '<'):
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if isc(y, 'maxBlockCumulativeSize'):
                    self.size.add(stripc(x))
        return f


def schedule(c):
    F, E, m = c.F, c.E, c.m
    dets = ['m_upgradeDetectorV%d' % i for i in (2, 3, 4, 7, 8)]
    up = lambda t, d: isc(t, 'upgradeHeight') and m.fld(t, d)
    for fn in [f for f in F.cls('cn::Blockchain') if f.name in ('get_block_major_version_for_height', 'getBlockMajorVersionForHeight')]:
        br = {}
        for d in dets:
            br['above ' + d] = lambda a, p, ev, d=d: lt(a, p, lambda t: up(t, d), lambda t: m.param(t, 0) and noff(t))
            br['notabove ' + d] = lambda a, p, ev, d=d: le(a, p, lambda t: m.param(t, 0) and noff(t), lambda t: up(t, d))

        def need(k, r):
            if k != 'ret':
                return None
            for i, d in enumerate(dets):
                if m.fld(r, d):
                    return {'above ' + d} | {'notabove ' + x for x in dets[i + 1:]}
            return {'notabove ' + x for x in dets}
        c.gates('R4', fn, {'cn::BasicUpgradeDetector::upgradeHeight'}, {}, br=br, exits=need, no_inline=('cn::BasicUpgradeDetector<cn::Blockchain::Blocks>::upgradeHeight',))
