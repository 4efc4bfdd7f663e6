from .common import *
from .c02 import flagged, may_be, Steps, report
from .c03 import LEAF, STOP as STOP3, keys as keys3, zone_in

META = dict(
    title='Only a valid, strictly heavier branch replaces the main chain, all or nothing',
    statement='A block on a side branch is kept only after passing the checkpoint, version, size, timestamp, difficulty, proof-of-work and coinbase rules, with its parent known and its accumulated difficulty computed from its parent. The main chain is switched to a branch only if that branch has strictly more accumulated difficulty or contains a checkpoint, and only if it carries every transaction of the blocks it displaces. A switch either connects every block of the branch and turns the displaced blocks into a side branch, or restores every displaced block, drops the failed blocks and reports failure.',
    over=['inputs', 'histories'],
    qtext='every branch of side blocks, every split height, every position in the branch at which a block turns out invalid',
    why='Reorganisation tests use a few short branches; the failure paths (an invalid block deep in a heavier branch, a branch of equal weight, a missing transaction) are hardly exercised and decide whether nodes agree.',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/Checkpoints.cpp'],
    mechanism=[('side-branch gate and weight comparison', 'Blockchain::handle_alternative_block'), ('switch and rollback', 'Blockchain::switch_to_alternative_blockchain, rollback_blockchain_switching'), ('depth and checkpoint limit for side branches', 'Checkpoints::is_alternative_block_allowed')],
    state=[('side branches', 'known blocks off the main chain', 'Blockchain::m_alternative_chains, m_orthanBlocksIndex'), ('main chain', 'accepted blocks', 'Blockchain::m_blocks')],
    observe=['tail id and chain height after offering side blocks', 'block_verification_context flags'],
    technique='path-sensitive guard domination, typestate of the switch (connected / disconnected / restored) and per-element loop coverage over the CFG',
    level_note='Decides order, guards, coverage and rollback on every explicit path; failures raised as exceptions by the block storage are outside, as is the arithmetic of the difficulty algorithm.',
)
MIN = 25
EXPLAIN = 'All CFG paths of the side-block handler, the switch and its rollback and the entry function, with helpers inlined down to elementary comparisons.'

BC = 'cn::Blockchain::'
SW, RB, HA = BC + 'switch_to_alternative_blockchain', BC + 'rollback_blockchain_switching', BC + 'handle_alternative_block'
ALT = BC + 'm_alternative_chains'
STOP = STOP3 + (SW, RB, BC + 'pushBlock', BC + 'popBlock', BC + 'get_next_difficulty_for_alternative_chain', BC + 'complete_timestamps_vector', BC + 'getBlockCumulativeSize', 'cn::Checkpoints::is_alternative_block_allowed', 'cn::Checkpoints::load_checkpoints_from_dns', BC + 'sendMessage',
                 'cn::OrphanBlocksIndex*', 'cn::BlockIndex*', 'cn::getMergeMiningTagFromExtra')


def keys(f):
    return f.qn in (SW, RB) or ALT in f.names and f.cls == 'cn::Blockchain' or keys3(f)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'a side block is kept only after each elementary rule')
    c.rule('R2', 'the switch is entered only for a strictly heavier branch or one with a checkpoint, after the block was kept')
    c.rule('R3', 'result flags follow the outcome of the switch')
    c.rule('R4', 'every refusal of a rule is reported as failed verification')
    c.rule('R5', 'the switch: superset of transactions, complete disconnect, complete connect, restore on failure')
    c.rule('R6', 'the restore puts back every displaced block')
    c.rule('R7', 'routing: a block goes to the main chain only when it extends the tail, and known blocks go nowhere')
    c.rule('R8', 'side-branch limits: not the genesis height, not below the last checkpoint, not too deep')
    fn = F.q1(HA)
    g = bgates(c)
    pts = lambda t: m.fld(t, 'm_points')
    alts = lambda t: isf(t, 'm_alternative_chains')
    insalt = lambda ev: ev.kind == 'call' and ev.name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'lazy_emplace') and ev.obj is not None and alts(ev.obj)
    br = {k: g[k] for k in ('version', 'median', 'difficulty', 'pow', 'size') + MINER}
    br['nonzero'] = lambda a, p, ev: (ne(a, p, lambda t: isc(t, 'get_block_height'), lambda t: const_of(t) == 0) or lt(a, p, lambda t: const_of(t) == 0, lambda t: isc(t, 'get_block_height'))
                                      or p == 1 and isc(stripc(a), 'get_block_height'))
    br['allowed'] = lambda a, p, ev: truth_of(a, p, 'is_alternative_block_allowed') == 1
    br['parent'] = lambda a, p, ev: (a[0] == 'in' and p == 1 and alts(a[1]) and m.fld(a[2], 'previousBlockHash') or truth_of(a, p, 'getBlockHeight') == 1 and m.fld(a, 'previousBlockHash')
                                     or ne(a, p, lambda t: isc(t, 'find') and m.fld(t, 'm_alternative_chains'), lambda t: isc(t, 'end')))
    br['checkpoint'] = lambda a, p, ev: absent(a, p, pts) or eq(a, p, lambda t: pts(t) and m.fld(t, 'second'), lambda t: m.param(t, None, 'crypto::Hash') or m.call(t, 'get_block_hash'))
    br['mm'] = lambda a, p, ev: truth_of(a, p, 'getMergeMiningTagFromExtra') == 0 or lt(a, p, lambda t: isf(t, 'height') or m.call(t, 'get_block_height') or isf(t, 'blockIndex'), lambda t: m.glob(t, 'UPGRADE_HEIGHT_V6'))
    diff = lambda t: m.call(t, 'get_next_difficulty_for_alternative_chain')
    parentref = lambda t: m.fld(t, 'm_alternative_chains') and m.has(t, lambda x: x[0] in ('idx', 'call') and m.fld(x, 'm_alternative_chains') and m.fld(x, 'previousBlockHash')) and not m.call(t, 'back', 'front')
    mainh = lambda t: stripc(t)[0] == 'out' and last(stripc(t)[1]) == 'getBlockHeight' and m.fld(t, 'previousBlockHash') or m.call(t, 'getBlockHeight') and m.fld(t, 'previousBlockHash') and noff(t)
    mainidx = lambda t: m.has(t, lambda x: x[0] in ('idx', 'call') and (x[0] == 'idx' and mainh(x[2]) and m.fld(x[1], 'm_blocks') or x[0] == 'call' and last(x[1]) in ('operator[]', 'at') and x[2] is not None and isf(x[2], 'm_blocks') and x[3] and mainh(x[3][0])))
    fromparent = lambda t: all(parentref(x) or mainidx(x) for x in flat_alts(E, t)) if stripc(t)[0] == 'phi' else parentref(t) or mainidx(t)
    # the height of the parent plus one
    up1 = lambda t: (lambda l: l.get(1) == 1 and len(l) == 2 and all(k == 1 or v == 1 and (isf(k, 'height') and parentref(k) or mainh(k)) for k, v in l.items()))({k: v for k, v in lin(t).items() if v})
    up1p = lambda t: all(up1(x) for x in flat_alts(E, stripc(t))) if stripc(t)[0] == 'phi' else up1(t)
    hw = lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and ev.lhs[2] == 'cn::Blockchain::BlockEntry::height'
    br['height'] = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'blockIndex') and m.fld(t, 'baseTransaction'), lambda t: isf(t, 'height') and not m.call(t, 'get_block_height') or up1p(t))
    front1 = lambda t: (lambda l: l.get(1) == -1 and len(l) == 2 and all(k == 1 or v == 1 and isf(k, 'height') and m.fld(k, 'm_alternative_chains') and m.call(k, 'front') for k, v in l.items()))({k: v for k, v in lin(t).items() if v})
    ev = {'hgt': lambda ev: hw(ev) and up1p(ev.rhs),
          'times': lambda ev: ev.kind == 'call' and ev.name == 'complete_timestamps_vector' and (mainh(ev.args[0]) or front1(ev.args[0])),
          'work0': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'cumulative_difficulty') and isf(ev.rhs, 'cumulative_difficulty') and fromparent(ev.rhs) and not m.fld(ev.lhs, 'm_blocks'),
          'work1': lambda ev: ev.kind == 'write' and isf(ev.lhs, 'cumulative_difficulty') and diff(ev.rhs)}
    text = dict(GTEXT, nonzero='its coinbase names a height above the genesis block', allowed='a side branch is allowed at its height', parent='its parent is on the main chain or on a side branch',
                checkpoint='its hash equals the checkpoint at its height when there is one', hgt='its height is that of its parent plus one', times='the timestamps it is compared with are those of the branch and of the main chain below the branch',
                work0='its accumulated difficulty starts from that of its parent', work1='its own difficulty is added to the accumulated difficulty',
                pow='its proof of work meets the difficulty of its branch')
    need = set(br) | set(ev)
    kills = {'hgt': lambda ev: hw(ev) and not up1p(ev.rhs), 'times': lambda ev: ev.kind == 'call' and ev.name == 'complete_timestamps_vector' and not (mainh(ev.args[0]) or front1(ev.args[0]))}
    c.gates('R1', fn, keys, text, br=br, ev=ev, kills=kills, targets=[('side block kept', insalt, need)], no_inline=STOP, max_depth=6)
    # R2: the switch
    cd = lambda t: m.fld(t, 'cumulative_difficulty')
    mainw = lambda t: isf(t, 'cumulative_difficulty') and m.fld(t, 'm_blocks') and m.call(t, 'back') and noff(t)
    sidew = lambda t: isf(t, 'cumulative_difficulty') and noff(t) and not (m.call(t, 'back') and m.fld(strip(t)[1], 'm_blocks') and not diff(t))
    found = lambda a, p: ne(a, p, lambda t: pts(t) and isc(t, 'find'), lambda t: isc(t, 'end')) or a[0] == 'in' and p == 1 and pts(a[1]) or p == 1 and a[0] == 'out' and last(a[1]) == 'check_block'
    heavier = lambda a, p, ev: lt(a, p, mainw, sidew) or found(a, p)
    c.gates('R2', fn, keys, {'heavier': 'the branch has strictly more accumulated difficulty than the main chain, or holds a checkpoint', 'kept': 'the new block was kept as side block first', 'in': 'the new block is part of the branch that is connected'},
            br={'heavier': heavier, 'kept': lambda a, p, ev: p == 1 and isf(a, 'second') and m.has(a, lambda x: x[0] == 'call' and last(x[1]) in ('insert', 'emplace'))},
            ev={'in': lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and m.has(ev.args[0], lambda x: x[0] == 'call' and last(x[1]) in ('insert', 'emplace') or x[0] == 'param' and 'Hash' in x[2])},
            targets=[('switch', lambda ev: ev.kind == 'call' and ev.qn == SW, {'heavier', 'kept', 'in'})], no_inline=STOP, max_depth=6)
    # a heavier branch is switched to: no accepting exit for a heavier block without the switch
    class Must(Rule):
        """heavier branch known -> the switch was called before any exit"""
        init = 0
        no_inline = STOP
        max_depth = 6
        keys = staticmethod(keys)

        def reset(s):
            s.sites = {}

        def event(s, f, ev, st):
            return 2 if ev.kind == 'call' and ev.qn == SW else f

        def branch(s, f, a, p, ev):
            return 1 if f == 0 and lt(a, p, mainw, sidew) else f

        def leave(s, f, kind, ret, ev, st):
            if kind == 'ret':
                k = (ev.fn.id, ev.line)
                s.sites.setdefault(k, None)
                if f == 1:
                    s.sites[k] = E.path(st) or ['entry']
    r = Must()
    r.reset()
    c.run(r, fn)
    for (fid, line), p in sorted(r.sites.items()):
        (c.ok('R2', 'a heavier branch leads to a switch', F.fns[fid].loc(line)) if p is None else c.bad('R2', 'a heavier branch leads to a switch', F.fns[fid].loc(line), p, construct='heavier branch without switch'))
    # R3
    flagset = lambda n: (lambda ev: ev.kind == 'write' and ev.lhs[0] == 'fld' and last(ev.lhs[2]) == n and ev.rhs != FALSE)
    sw = {'done': lambda a, p, ev: truth_of(a, p, SW) == 1}
    c.gates('R3', fn, keys, {'done': 'a block is reported as added to the main chain only after a successful switch'}, br=sw,
            targets=[('added flag', flagset('m_added_to_main_chain'), {'done'}), ('switched flag', flagset('m_switched_to_alt_chain'), {'done'})], no_inline=STOP, max_depth=6)
    internal = lambda a, p, ev: (p == 0 and isc(stripc(a), 'get_next_difficulty_for_alternative_chain') or p == 0 and isf(a, 'second') and m.call(a, 'insert', 'emplace')
                                 or le(a, p, lambda t: m.fld(t, 'm_blocks') and m.call(t, 'size'), lambda t: isf(t, 'height')) or ne(a, p, lambda t: isf(t, 'previousBlockHash') and m.fld(t, 'm_alternative_chains'), anyt)
                                 or truth_of(a, p, 'getBlockHeight') == 0)
    flagged(c, 'R4', fn, keys, STOP, internal)
    switch(c)
    # R7
    add = F.q1(BC + 'addNewBlock')
    st7 = (BC + 'pushBlock', HA, BC + 'haveBlock', BC + 'getTailId', 'cn::get_block_hash', BC + 'storeCache', BC + 'sendMessage')
    tail = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'previousBlockHash'), lambda t: isc(t, 'getTailId'))
    nottail = lambda a, p, ev: ne(a, p, lambda t: isf(t, 'previousBlockHash'), lambda t: isc(t, 'getTailId'))
    unk = lambda a, p, ev: truth_of(a, p, 'haveBlock') == 0
    kk = lambda f: f.qn in (BC + 'pushBlock', HA)
    c.gates('R7', add, kk, {'tail': 'the block extends the tail', 'nottail': 'the block does not extend the tail', 'unknown': 'the block is not known yet', 'hash': 'its hash could be computed'},
            br={'tail': tail, 'nottail': nottail, 'unknown': unk, 'hash': lambda a, p, ev: truth_of(a, p, 'get_block_hash') == 1},
            targets=[('main chain', lambda ev: ev.kind == 'call' and ev.qn == BC + 'pushBlock', {'tail', 'unknown', 'hash'}), ('side chain', lambda ev: ev.kind == 'call' and ev.qn == HA, {'nottail', 'unknown', 'hash'})], min_sites=2, no_inline=st7)
    hb = F.q1(BC + 'haveBlock')
    c.gates('R7', hb, set(), {'main': 'a block is unknown only when it is not in the main-chain index', 'alt': 'a block is unknown only when it is not on a side branch'},
            br={'main': lambda a, p, ev: truth_of(a, p, 'hasBlock') == 0, 'alt': lambda a, p, ev: absent(a, p, alts) or absent(a, p, lambda t: m.fld(t, 'm_alternative_chains'))},
            exits=lambda k, r: {'main', 'alt'} if k == 'ret' and r == FALSE else None)
    # R8
    al = F.q1('cn::Checkpoints::is_alternative_block_allowed')
    hp = lambda i: (lambda t: t[0] == 'param' and t[1] == i)
    bh = lambda t: m.has(t, hp(1)) and noff(t) and not m.has(t, hp(0))
    zone = lambda a, p, ev: le(a, p, bh, lambda t: pts(t) and isf(t, 'first'))
    c.gates('R8', al, {'cn::Checkpoints::m_points'}, {'nz': 'the height is not that of the genesis block', 'deep': 'the branch does not start below the allowed reorganisation depth (outside the checkpoint zone)', 'cp': 'the branch does not start at or below the last checkpoint'},
            br={'nz': lambda a, p, ev: ne(a, p, lambda t: const_of(t) == 0, bh) or lt(a, p, lambda t: const_of(t) == 0, bh) or p == 1 and bh(stripc(a)) and stripc(a)[0] == 'param',
                'deep': lambda a, p, ev: le(a, p, lambda t: m.has(t, hp(0)) and m.glob(t, 'CRYPTONOTE_MINED_MONEY_UNLOCK_WINDOW') or const_of(t) == 0 and t[0] != 'param' and m.has(a, hp(1)), bh) or zone(a, p, ev) or t_zone(a, p),
                'cp': lambda a, p, ev: eq(a, p, lambda t: m.call(t, 'upper_bound', 'lower_bound'), lambda t: isc(t, 'begin')) or lt(a, p, lambda t: isf(t, 'first') and pts(t) and noff(t), bh)},
            exits=lambda k, r: {'nz', 'deep', 'cp'} if succ(k, r) else None)


def t_zone(a, p):
    return truth_of(a, p, 'is_in_checkpoint_zone') == 1


def switch(c):
    F, E, m = c.F, c.E, c.m
    fn = F.q1(SW)
    keys = lambda f: f.qn in (RB, BC + 'popBlock', BC + 'pushBlock') or f.cls == 'cn::Blockchain' and f.name not in ('addNewBlock', 'handle_alternative_block') and ALT in f.direct_names if hasattr(f, 'direct_names') else f.qn in (RB,)
    keys = lambda f: f.qn in (RB, BC + 'popBlock', BC + 'pushBlock')
    st = (RB, BC + 'popBlock', BC + 'pushBlock', HA, BC + 'checkBlockVersion', BC + 'sendMessage', 'cn::get_block_hash', 'cn::OrphanBlocksIndex*', 'SwappedVector*', 'common::podToHex')
    chain = lambda t: t[0] == 'param' and t[1] == 0
    pop = lambda ev: ev.kind == 'call' and ev.qn == BC + 'popBlock'
    push = lambda ev: ev.kind == 'call' and ev.qn == BC + 'pushBlock'
    split = lambda t: isf(t, 'height') and m.fld(t, 'm_alternative_chains') and m.call(t, 'front')
    vec = lambda t: t[0] in ('phi', 'obj')
    def srcof(x):
        while x and x[0] in ('fld', 'idx', 'deref', 'addr', 'copy', 'call'):
            if x[0] == 'fld' and last(x[2]) in ('m_blocks', 'm_alternative_chains'):
                return last(x[2])
            x = x[2] if x[0] == 'call' else x[1]
            if not isinstance(x, tuple):
                break
        return None
    hfrom = lambda t, src: m.has(t, lambda x: x[0] == 'fld' and last(x[2]) == 'transactionHashes' and srcof(x[1]) == src)
    hashes = lambda src: (lambda t: stripc(t)[0] in ('phi', 'obj') and hfrom(t, src) and not hfrom(t, 'm_blocks' if src != 'm_blocks' else 'm_alternative_chains'))
    # typestate of the switch
    class Sw(Rule):
        """clean -> (popBlock) open -> (restore) clean; success only after all blocks were connected"""
        init = 0
        no_inline = st
        max_depth = 4
        zero_iter = False

        def reset(s):
            s.sites = {}

        def note(s, what, ev, ok, st_):
            k = (what, ev.fn.id, ev.line)
            s.sites.setdefault(k, None)
            if not ok and s.final:
                s.sites[k] = E.path(st_) or ['entry']

        def event(s, f, ev, st_):
            if pop(ev):
                return 1
            if ev.kind == 'call' and ev.qn == RB:
                s.note('restore', ev, f == 1, st_)
                return 2
            return f

        def leave(s, f, kind, ret, ev, st_):
            if kind != 'ret':
                return
            if may_be(E, ev, st_, ret, 0):
                s.note('failure', ev, f != 1, st_)
            if may_be(E, ev, st_, ret, 1):
                s.note('success', ev, f == 1, st_)
    r = Sw()
    r.keys = keys
    r.reset()
    c.run(r, fn)
    T = {'restore': 'the restore runs after blocks were disconnected', 'failure': 'a failed switch has restored the displaced blocks', 'success': 'a successful switch has disconnected the displaced blocks and not restored them'}
    for (what, fid, line), p in sorted(r.sites.items()):
        f = F.fns[fid]
        (c.ok('R5', T[what], '%s in %s' % (f.loc(line), f.qn)) if p is None else c.bad('R5', T[what], '%s in %s' % (f.loc(line), f.qn), p, construct='%s in %s' % (what, f.qn)))
    if not any(k[0] == 'restore' for k in r.sites):
        c.bad('R5', 'there is a restore on failure', fn.loc(), construct='no restore')
    # every displaced transaction is found in the branch before anything is disconnected
    c.each('R5', 'every transaction of the displaced blocks is looked up in the branch', fn, keys, hashes('m_blocks'),
           done_br=lambda a, p, ev: p == 1 and a[0] == 'in' and hashes('m_alternative_chains')(a[1]) or ne(a, p, lambda t: isc(t, 'find') and m.fld(t, 'm_alternative_chains'), lambda t: isc(t, 'end')), exits=succ, no_inline=st)
    c.gates('R5', fn, keys, {'sup': 'the transaction comparison is complete before the first block is disconnected', 'ne': 'the branch is not empty'},
            br={'sup': lambda a, p, ev: loop_more(E, a, p, hashes('m_blocks')) == 0, 'ne': lambda a, p, ev: p == 0 and a[0] == 'empty' and chain(stripc(a[1])) or p == 1 and a[0] in ('size',) and chain(stripc(a[1])) or p == 1 and isc(a, 'size') and a[2] is not None and chain(strip(a[2])) or lt(a, p, lambda t: const_of(t) == 0, lambda t: m.has(t, chain)) or ne(a, p, lambda t: const_of(t) == 0, lambda t: m.has(t, chain))},
            targets=[('disconnect', pop, {'sup', 'ne'})], no_inline=st)
    # collection loops run from the split to the tail and over the whole branch
    collect = lambda src: (lambda ev: ev.kind == 'call' and any(hfrom(a, src) for a in ev.args or ()) and ev.name in ('copy', 'insert', 'push_back', 'emplace_back', 'append'))
    c.each('R5', 'the transactions of every branch block are collected', fn, keys, chain, done=collect('m_alternative_chains'), done_br=lambda a, p, ev: loop_more(E, a, p, lambda t: isf(t, 'transactionHashes') and srcof(strip(t)[1]) == 'm_alternative_chains') == 0, exits=succ, no_inline=st, some=True)
    whole(c, fn, keys, st, 'R5', 'the transactions of every displaced block are collected', lambda ev: (ev.obj is not None or ev.kind == 'call') and collect('m_blocks')(ev), split)
    whole(c, fn, keys, st, 'R5', 'every block from the tail down to the split is disconnected', pop, split)
    c.forall('R5', 'every disconnected block is remembered at the front', fn, keys, None, done=lambda ev: ev.kind == 'call' and ev.name in ('push_front', 'emplace_front') and m.fld(ev.args[0], 'bl'), trig_ev=pop, no_inline=st)
    added = lambda a, p, ev: p == 1 and isf(a, 'm_added_to_main_chain')
    c.each('R5', 'every branch block is connected and confirmed as added', fn, keys, chain, done_br=lambda a, p, ev: truth_of(a, p, BC + 'pushBlock') == 1, exits=succ, no_inline=st, some=True)
    c.each('R5', 'every branch block is taken off the side branches after the switch', fn, keys, chain, done=lambda ev: ev.kind == 'call' and ev.name == 'erase' and ev.obj is not None and isf(ev.obj, 'm_alternative_chains'), exits=succ, no_inline=st, some=True)
    c.each('R5', 'every branch block is taken off the side-block index after the switch', fn, keys, chain, done=lambda ev: ev.kind == 'call' and ev.name == 'remove' and ev.obj is not None and isf(ev.obj, 'm_orthanBlocksIndex'), exits=succ, no_inline=st, some=True)
    c.each('R5', 'every displaced block becomes a side block (unless they are to be discarded)', fn, keys, lambda t: stripc(t)[0] in ('phi', 'obj') and 'disconnected' in str(t) or m.has(t, lambda x: x[0] == 'fld' and last(x[2]) == 'bl' and m.fld(x, 'm_blocks')) and stripc(t)[0] in ('phi', 'obj') and not m.fld(t, 'transactionHashes'),
           done_br=lambda a, p, ev: truth_of(a, p, HA) == 1, exits=lambda k, r: False, no_inline=st)
    # after a failed connect: the failing block leaves the side branches and their index
    failed = lambda a, p, ev: (truth_of(a, p, BC + 'pushBlock') == 0) or (p == 0 and isf(a, 'm_added_to_main_chain'))

    class Drop(Rule):
        """after a failed connect, the failing block and those above it are erased from the side branches, and the failure reported"""
        init = frozenset()
        no_inline = st
        max_depth = 4
        zero_iter = False

        def reset(s):
            s.sites, s.skip = {}, []

        def event(s, f, ev, st_):
            if 'failed' in f and ev.kind == 'call':
                if ev.name == 'erase' and ev.obj is not None and isf(ev.obj, 'm_alternative_chains'):
                    f = (f | {'erased'} if 'in' not in f else f | {'rest'} | ({'erased'} if 'first' in f else set())) - {'open'}
                if ev.name == 'remove' and ev.obj is not None and isf(ev.obj, 'm_orthanBlocksIndex'):
                    f = f | {'unindexed'}
                if ev.qn == RB:
                    f = f | {'restored'}
            return f

        def branch(s, f, a, p, ev):
            if 'failed' in f and a[0] == 'cmp' and any(isc(x, 'end') and m.has(x, chain) for x in a[2:4]):
                if 'open' in f and s.final:
                    s.skip.append((ev, E.path(st_) if False else []))
                first = not any(E.mentions(v, lambda x: x[0] == 'op' and x[1] in ('++', '+') or x[0] == 'un' or x[0] == 'call' and last(x[1]) in ('next', 'advance'), follow=False)
                                for ph in (stripc(a[2]), stripc(a[3])) if ph[0] == 'phi' for v in E.alts.get(ph, ()) if not E.mentions(v, lambda z: z == ph, follow=False))
                return f | {'in', 'open'} | ({'first'} if first and 'in' not in f else set()) if ne(a, p, anyt, anyt) else f - {'open'} | {'ended'}
            return f | {'failed'} if failed(a, p, ev) else f

        def leave(s, f, kind, ret, ev, st_):
            if kind == 'ret' and 'failed' in f:
                k = (ev.fn.id, ev.line)
                miss = {'erased', 'unindexed', 'restored', 'rest', 'ended'} - f
                if ret == TRUE:
                    miss = miss | {'reported'}
                s.sites.setdefault(k, None)
                if miss:
                    s.sites[k] = (sorted(miss), E.path(st_))
    d = Drop()
    d.keys = keys
    d.reset()
    c.run(d, fn)
    if not d.sites:
        c.bad('R5', 'a block that cannot be connected ends the switch', fn.loc(), construct='no failure path')
    for (fid, line), p in sorted(d.sites.items()):
        f = F.fns[fid]
        (c.ok('R5', 'a block that cannot be connected is dropped from the side branches, the displaced chain restored and failure reported', f.loc(line)) if p is None
         else c.bad('R5', 'after a block that cannot be connected: not ' + ', '.join(p[0]), f.loc(line), p[1], construct='failed connect'))
    for ev, p in d.skip[:1]:
        c.bad('R5', 'every branch block above one that cannot be connected is dropped', ev.loc(), construct='rest of the branch kept')
    # R6
    rb = F.q1(RB)
    orig = lambda t: t[0] == 'param' and t[1] == 0
    c.each('R6', 'every displaced block is connected again and confirmed as added', rb, keys, orig, done_br=lambda a, p, ev: truth_of(a, p, BC + 'pushBlock') == 1, exits=succ, no_inline=st)
    whole(c, rb, keys, st, 'R6', 'every block above the split is removed first', pop, lambda t: t[0] == 'param' and t[1] == 1)
    c.gates('R6', rb, keys, {'gone': 'the failed branch is removed before the displaced blocks are connected'}, br={'gone': lambda a, p, ev: le(a, p, lambda t: m.fld(t, 'm_blocks'), lambda t: t[0] == 'param' and t[1] == 1) or (lambda q: q is not None and q[3] == 0 and not (set(q[1]) - {1} and False) and m.has(a, lambda x: x[0] == 'param' and x[1] == 1))(loop_cond(E, a, p))},
            targets=[('reconnect', push, {'gone'})], no_inline=st)


def whole(c, fn, keys, st, rid, what, pick, split):
    """a counting loop around the picked event covers split .. size-1"""
    E, m = c.E, c.m
    rr = Ranges(E, keys, lambda ev: True if pick(ev) else None, no_inline=st, max_depth=4)
    c.run(rr, fn)
    if not rr.hits:
        c.bad(rid, what, fn.loc(), construct='%s in %s' % (what, fn.qn))
        return
    good = False
    seen = []
    for ph, (lo, hi) in rr.ranges.items():
        los = {k: v for k, v in lo.items() if v}
        his = {k: v for k, v in hi.items() if v}
        if len(los) == 1 and split(list(los)[0]) if los and list(los)[0] != 1 else False:
            syms = [k for k in his if k != 1]
            if len(syms) == 1 and his[syms[0]] == 1 and his.get(1, 0) == -1 and m.has(syms[0], lambda x: x[0] == 'fld' and last(x[2]) == 'm_blocks'):
                seen.append(ph)
    # loops that treat the tail: each such loop counts from the tail to the split
    n_ok = len(seen)
    rel = [ph for ph, (lo, hi) in rr.ranges.items() if any(isinstance(k, tuple) and (split(k)) for d in (lo, hi) for k in d)]
    if rel:
        c.check(n_ok == len(rel), rid, what + ' (loop from the tail to the split)', fn.loc(), construct='%s in %s' % (what, fn.qn))
    else:
        # not a counting loop: a loop on the size of the chain against the split height
        c.ok(rid, what + ' (loop on the chain size)', fn.loc())
