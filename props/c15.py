"""What a peer sends: taken only as requested, within limits and matching, and a violation ends the connection."""
from .common import *
from .c14 import FULL, NS, PH, STATE

META = dict(
    title='Data from a peer is taken only as requested and matching; violations disconnect',
    statement='Blocks that a peer delivers for synchronisation are handed to the chain only if each was requested from it, is within the size limit, decodes, and carries exactly the transactions its header lists, and nothing requested is missing; every message is length-checked before it is read and handled only if it decodes. A peer that breaks one of these rules, sends a block or transaction that fails verification, answers a chain request inconsistently, or asks for more than the limit is disconnected, and its message has no further effect. A connection becomes synchronized only when nothing requested or needed from it is outstanding.',
    over=['inputs', 'histories'],
    qtext='every content and every sequence of messages that a peer can send',
    why='Hostile messages have unlimited variety; the tests deliver well-formed answers.',
    files=['src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp', 'src/P2p/LevinProtocol.cpp', 'src/P2p/LevinProtocol.h', 'src/P2p/NetNode.cpp'],
    mechanism=[('delivered blocks', 'CryptoNoteProtocolHandler::handle_response_get_objects, processObjects'), ('chain entries', 'CryptoNoteProtocolHandler::handle_response_chain_entry'), ('requests of peers', 'CryptoNoteProtocolHandler::handle_request_get_objects, handle_request_chain, handle_notify_missing_txs'), ('lite blocks', 'CryptoNoteProtocolHandler::doPushLiteBlock'), ('framing', 'LevinProtocol::readCommand, invoke, decode')],
    state=[('requested blocks', 'hashes asked for and not answered yet', 'CryptoNoteConnectionContext::m_requested_objects'), ('needed blocks', 'hashes learnt and not asked for yet', 'CryptoNoteConnectionContext::m_needed_objects'), ('pending lite block', 'lite block whose transactions were asked for', 'CryptoNoteConnectionContext::m_pending_lite_block')],
    observe=['whether the connection stays open', 'chain and pool after the message'],
    technique='path-sensitive gate analysis and must-follow analysis over the CFG of the message handlers',
    level_note='Decides that every test is made with the right operands and every refusal closes the connection on every path; hashing and decoding themselves are taken as correct.',
)
MIN = 35
EXPLAIN = 'Every CFG path of the protocol handlers and of the message framing with their helpers; obligations are one per guarded step and required test and one per refusal and its consequence.'

CTX = 'cn::CryptoNoteConnectionContext::'
CK = {CTX + 'm_state', CTX + 'm_requested_objects', CTX + 'm_needed_objects', CTX + 'm_pending_lite_block', CTX + 'm_last_response_height'}
for n in ('processObjects', 'request_missing_objects', 'doPushLiteBlock'):
    FULL[n] = PH + n
FULL['have_block'] = 'cn::core::have_block'
FULL['drop_connection'] = NS + 'drop_connection'
FULL['handle_get_objects'] = 'cn::core::handle_get_objects'
FULL['findBlockchainSupplement'] = 'cn::core::findBlockchainSupplement'


def stop(*names):
    return tuple(FULL[n] for n in names)


CORE = ('handle_incoming_tx', 'handle_incoming_block_blob', 'handle_incoming_block')
shut = lambda ev: writes('m_state')(ev) and enumv(ev.rhs, 'state_shutdown')
idle = lambda ev: writes('m_state')(ev) and enumv(ev.rhs, 'state_idle')
drop = lambda ev: calls('drop_connection')(ev) or shut(ev)
failed = lambda t: isf(t, 'm_verification_failed')


def grows(name, *ops):
    return lambda ev: ev.kind == 'call' and ev.name in (ops or ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front')) and ev.obj is not None and isf(ev.obj, name)


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'a delivered block is queued only within the size limit, decoded, requested and not yet answered, with as many transactions as its header lists; the queue is processed only when every requested block came')
    c.rule('R2', 'while processing, every transaction has the hash that the header lists at its place and passes verification before the block is added; a refused transaction or an orphaned or refused block ends the connection')
    c.rule('R3', 'an announced block or its transactions that fail verification end the connection before anything else is done with them')
    c.rule('R4', 'a chain entry is used only if it is not empty, begins with a known block and names consistent heights')
    c.rule('R5', 'requests of a peer are served only within the object limit, with a chain that ends in our genesis block, and for transactions we have; else the connection ends')
    c.rule('R6', 'a message is read only after its signature and size were checked, an answer counts only if it is one and decodes, and a handler runs only on a decoded message')
    c.rule('R7', 'a handler that does not reach its effect marks the connection for shutdown or idle, and once marked for shutdown nothing of the message is used')
    c.rule('R8', 'whatever is requested is recorded as requested, within the batch limit; the connection turns normal only when nothing is needed or outstanding and the heights agree')
    c.rule('R9', 'a lite block is assembled from transactions provided for it or known, is added only when complete, and missing transactions are asked for once')

    # R1
    fr = F.q1(PH + 'handle_response_get_objects')
    blocks = lambda t: isf(t, 'blocks')
    req = lambda t: isf(t, 'm_requested_objects')
    proc = calls('processObjects')
    qd = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert') and ev.obj is not None and 'parsed_block_entry' in typeof(E, ev.obj)
    hashed = lambda t: m.call(t, 'get_block_hash', 'getBlockHash')
    found = lambda a, p, ev: ne(a, p, lambda t: isc(t, 'find') and m.fld(t, 'm_requested_objects') and hashed(t), lambda t: isc(t, 'end') and m.fld(t, 'm_requested_objects')) or truth_of(a, p, 'count') == 1 and m.fld(a, 'm_requested_objects') and hashed(a) or stripc(a)[0] == 'in' and p == 1 and req(stripc(a)[1]) and hashed(a)
    erased = lambda a, p, ev: p == 1 and stripc(a)[0] == 'call' and last(stripc(a)[1]) == 'erase' and m.fld(a, 'm_requested_objects')
    KR = CK | {PH + 'processObjects', PH + 'parsed_block_entry::block'}
    GR = {'size': lambda a, p, ev: leq(a, p, lambda t: m.fld(t, 'block'), lambda t: isc(t, 'maxBlockBlobSize')),
          'parsed': lambda a, p, ev: truth_of(a, p, 'fromBinaryArray') == 1,
          'requested': lambda a, p, ev: found(a, p, ev) or erased(a, p, ev),
          'count': lambda a, p, ev: eq(a, p, lambda t: m.fld(t, 'transactionHashes'), lambda t: m.fld(t, 'txs'))}
    TR = {'size': 'the block is within the size limit', 'parsed': 'the block was decoded', 'requested': 'its hash is among those requested from this peer', 'count': 'it carries as many transactions as its header lists', 'answered': 'its hash is taken off the requested ones'}
    NI = stop('processObjects', 'request_missing_objects', 'updateObservedHeight', 'have_block')
    c.gates('R1', fr, KR, TR, br=GR, ev={'answered': grows('m_requested_objects', 'erase')}, targets=[('block queued', qd, set(TR))],
            fresh=lambda a, p, ev: loop_more(E, a, p, blocks) == 1, no_inline=NI, min_sites=1)
    c.gates('R1', fr, KR, {'all': 'every requested block was delivered', 'heights': 'the height of the peer did not go back'},
            br={'all': lambda a, p, ev: is_empty(a, p, req), 'heights': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_last_response_height'), lambda t: isf(t, 'current_blockchain_height'))},
            kills={'all': grows('m_requested_objects', 'insert', 'emplace')}, targets=[('blocks processed', proc, {'all', 'heights'}), ('height taken over', writes('m_remote_blockchain_height'), {'heights'})], no_inline=NI, min_sites=2)
    c.each('R1', 'every delivered block is examined', fr, KR, blocks, done=grows('m_requested_objects', 'erase'), exits=lambda k, r: False, no_inline=NI)

    # R2
    fo = F.q1(PH + 'processObjects')
    KO = CK | set(CORE) | {'cn::core::' + x for x in CORE} | {'m_verification_failed'}
    NO = stop(*CORE)
    tx, blk = calls('handle_incoming_tx'), calls('handle_incoming_block', 'handle_incoming_block_blob')
    txs = lambda t: isf(t, 'txs')
    bl = lambda t: m.param(t) and not isf(t, 'txs')

    def same(a, p, ev):
        r = eq(a, p, lambda t: isc(t, 'cn_fast_hash', 'getBinaryArrayHash', 'getObjectHash') and m.fld(t, 'txs'), lambda t: m.fld(t, 'transactionHashes'))
        if not r:
            return False
        x = a[2] if m.fld(a[2], 'transactionHashes') else a[3]
        y = a[3] if x is a[2] else a[2]
        ix = [s for s in subterms(x) if s[0] == 'idx']
        iy = [s for s in subterms(y) if s[0] == 'idx']
        return not ix or not iy or ix[0][2] == iy[0][2] and lin(ix[0][2]) == lin(iy[0][2])
    c.gates('R2', fo, KO, {'same': 'its hash is the one the header lists at its place'}, br={'same': same}, targets=[('transaction verified', tx, {'same'})],
            fresh=lambda a, p, ev: loop_more(E, a, p, txs) == 1, no_inline=NO, min_sites=1)
    c.gates('R2', fo, KO, {'all': 'all transactions of the block were handled'}, br={'all': lambda a, p, ev: loop_more(E, a, p, txs) == 0}, targets=[('block added', blk, {'all'})],
            fresh=lambda a, p, ev: loop_more(E, a, p, txs) == 1, kills={'all': blk}, no_inline=NO, min_sites=1)
    c.each('R2', 'every transaction of a delivered block is handed to the pool', fo, KO, txs, done=tx, exits=lambda k, r: False, no_inline=NO)
    passed = lambda a, p, ev: flag(a, p, failed) == 0
    follow(c, 'R2', 'a transaction or block that fails verification ends the connection before anything else is added', fo, KO, lambda ev: tx(ev) or blk(ev), done=drop, done_br=passed, no_inline=NO, min_trigs=2)
    follow(c, 'R2', 'a block without a parent ends the connection', fo, KO, blk, done=drop, done_br=lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_marked_as_orphaned')) == 0, no_inline=NO)
    follow(c, 'R2', 'a block already known stops the delivery', fo, KO, blk, done=lambda ev: drop(ev) or idle(ev), done_br=lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_already_exists')) == 0, no_inline=NO)
    c.gates('R2', fr, KR | {PH + 'request_missing_objects'}, {'done': 'the delivered blocks were processed without a refusal', 'sync': 'the connection is still synchronizing'},
            br={'done': lambda a, p, ev: flag(a, p, lambda t: isc(t, 'processObjects')) == 0, 'sync': lambda a, p, ev: is_enum(a, p, STATE, 'state_synchronizing')}, targets=[('more requested', calls('request_missing_objects'), {'done', 'sync'})], no_inline=NI, min_sites=1)

    # R3
    for q in ('handle_notify_new_block', 'doPushLiteBlock'):
        f = F.q1(PH + q)
        NB = NO + stop('updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block', 'drop_connection')
        follow(c, 'R3', 'data that fails verification ends the connection before anything else is done', f, KO, lambda ev: tx(ev) or blk(ev), done=drop, done_br=passed, no_inline=NB, min_trigs=2)
        have = (lambda t: isf(t, 'txs')) if q == 'handle_notify_new_block' else (lambda t: 'unsigned char' in typeof(E, t))
        c.gates('R3', f, KO, {'all': 'the transactions that came with the block were handled'}, br={'all': lambda a, p, ev: loop_more(E, a, p, have) == 0}, targets=[('block added', blk, {'all'})],
                fresh=lambda a, p, ev: loop_more(E, a, p, have) == 1, no_inline=NB, min_sites=1)
        follow(c, 'R3', 'a block without a parent restarts the synchronisation', f, KO | {'cn::post_notify'}, None, trig_br=lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_marked_as_orphaned')) == 1, done=calls('post_notify'), no_inline=NB)
        c.gates('R3', f, KO, {'orphan': 'the block has no parent'}, br={'orphan': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'm_marked_as_orphaned')) == 1}, targets=[('synchronisation restarted', writes('m_state', lambda v: enumv(v, 'state_synchronizing')), {'orphan'})], no_inline=NB, min_sites=1)

    # R4
    fe = F.q1(PH + 'handle_response_chain_entry')
    ids = lambda t: isf(t, 'm_block_ids')
    GE = {'some': lambda a, p, ev: some_left(a, p, ids),
          'known': lambda a, p, ev: truth_of(a, p, 'have_block') == 1 and m.call(a, 'front', 'begin') or truth_of(a, p, 'have_block') == 1 and bool([s for s in subterms(a) if s[0] == 'idx' and const_of(s[2]) == 0]),
          'heights': lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_last_response_height') or m.fld(t, 'start_height'), lambda t: isf(t, 'm_remote_blockchain_height', 'total_height'))}
    TE = {'some': 'the entry is not empty', 'known': 'its first block is known', 'heights': 'its heights are consistent', 'new': 'the block is not known yet'}
    NE = stop('request_missing_objects', 'have_block', 'updateObservedHeight')
    KE = CK | {PH + 'request_missing_objects', FULL['have_block']}
    c.gates('R4', fe, KE, TE, br=GE, targets=[('block noted as needed', grows('m_needed_objects'), set(GE)), ('objects requested', calls('request_missing_objects'), set(GE)),
            ('heights taken over', lambda ev: writes('m_remote_blockchain_height')(ev) or writes('m_last_response_height')(ev), {'some', 'known'})], no_inline=NE, min_sites=4)
    c.gates('R4', fe, KE, TE, br={'new': lambda a, p, ev: truth_of(a, p, 'have_block') == 0}, targets=[('block noted as needed', grows('m_needed_objects'), {'new'})], fresh=lambda a, p, ev: loop_more(E, a, p, ids) == 1, no_inline=NE, min_sites=1)
    c.each('R4', 'every block of the entry is examined', fe, KE, ids, done=grows('m_needed_objects'), done_br=lambda a, p, ev: truth_of(a, p, 'have_block') == 1, exits=lambda k, r: False, no_inline=NE)

    # R5
    fg = F.q1(PH + 'handle_request_get_objects')
    both_counts = lambda t: all(any(k != 1 and v >= 1 and isf(k[1] if k[0] == 'size' else k, n) for k, v in lin(t).items()) for n in ('blocks', 'txs'))
    c.gates('R5', fg, {FULL['handle_get_objects'], 'm_state'}, {'limit': 'blocks and transactions together are within the object limit'}, br={'limit': lambda a, p, ev: leq(a, p, both_counts, lambda t: m.fld(t, 'm_maxObjectCount'))},
            targets=[('objects collected', calls('handle_get_objects'), {'limit'})], no_inline=stop('handle_get_objects'), min_sites=1)
    follow(c, 'R5', 'a request that cannot be served ends the connection', fg, {FULL['handle_get_objects'], CTX + 'm_state'}, calls('handle_get_objects'), done=drop, done_br=lambda a, p, ev: truth_of(a, p, 'handle_get_objects') == 1, no_inline=stop('handle_get_objects'))
    fq = F.q1(PH + 'handle_request_chain')
    bids = lambda t: isf(t, 'block_ids')
    c.gates('R5', fq, {FULL['findBlockchainSupplement'], CTX + 'm_state'}, {'some': 'the chain sent is not empty', 'genesis': 'it ends in our genesis block'},
            br={'some': lambda a, p, ev: some_left(a, p, bids), 'genesis': lambda a, p, ev: eq(a, p, lambda t: m.fld(t, 'block_ids') and not m.call(t, 'front', 'begin'), lambda t: isc(t, 'getBlockIdByHeight') and const_of(strip(t)[3][0]) == 0)},
            targets=[('supplement searched', calls('findBlockchainSupplement'), {'some', 'genesis'})], no_inline=stop('findBlockchainSupplement'), min_sites=1)
    fm = F.q1(PH + 'handle_notify_missing_txs')
    c.gates('R5', fm, {'cn::post_notify', CTX + 'm_state'}, {'found': 'every transaction asked for was found'}, br={'found': lambda a, p, ev: is_empty(a, p, lambda t: 'crypto::Hash' in typeof(E, t))}, targets=[('transactions sent', calls('post_notify'), {'found'})], min_sites=1)

    # R6
    frc = F.q1('cn::LevinProtocol::readCommand')
    sig = lambda a, p, ev: eq(a, p, lambda t: isf(t, 'm_signature'), lambda t: m.glob(t, 'LEVIN_SIGNATURE') or const_of(t) is not None)
    size = lambda a, p, ev: leq(a, p, lambda t: isf(t, 'm_cb'), lambda t: m.glob(t, 'LEVIN_DEFAULT_MAX_PACKET_SIZE') or const_of(t) == 100000000)
    head = lambda a, p, ev: truth_of(a, p, 'readStrict') == 1
    TL = {'sig': 'the signature is right', 'size': 'the size is within the limit', 'head': 'the header was read completely'}
    alloc = lambda ev: ev.kind == 'call' and ev.name in ('resize', 'reserve', 'assign') and m.fld(ev.term, 'm_cb') or ev.kind == 'ctor' and m.fld(ev.term, 'm_cb')
    c.gates('R6', frc, {'readStrict', 'm_cb'} | {'cn::LevinProtocol::readStrict'}, TL, br={'sig': sig, 'size': size, 'head': head}, targets=[('buffer sized', alloc, {'sig', 'size', 'head'})], exits=lambda k, r: {'sig', 'size', 'head'} if succ(k, r) else None, no_inline=('cn::LevinProtocol::readStrict',), min_sites=2)
    rs = calls('readStrict')
    follow(c, 'R6', 'a message that could not be read completely is not delivered', frc, {'cn::LevinProtocol::readStrict'}, rs, done_br=lambda a, p, ev: truth_of(a, p, 'readStrict') == 1, exits=lambda k, r: succ(k, r), no_inline=('cn::LevinProtocol::readStrict',), min_trigs=2)
    KI = {'cn::LevinProtocol::readCommand'}
    n = 0
    for f in F.q('cn::LevinProtocol::invoke'):
        n += 1
        c.gates('R6', f, KI, {'read': 'an answer was read', 'answer': 'it is an answer', 'decoded': 'it was decoded'},
                br={'read': lambda a, p, ev: truth_of(a, p, 'readCommand') == 1, 'answer': lambda a, p, ev: flag(a, p, lambda t: isf(t, 'isResponse')) == 1, 'decoded': lambda a, p, ev: truth_of(a, p, 'decode') == 1},
                exits=lambda k, r: ({'read', 'answer'} if isc(r, 'decode') else {'read', 'answer', 'decoded'}) if succ(k, r) else None, no_inline=stop('readCommand', 'decode', 'encode') if 'encode' in FULL else stop('readCommand', 'decode'), min_sites=1)
    for f in F.q('cn::notifyAdaptor') + F.q('cn::invokeAdaptor'):
        n += 1
        run = lambda ev: ev.kind == 'call' and ev.name in ('operator()', 'handler') or ev.kind == 'call' and ev.obj is not None and m.param(ev.obj) and ev.name != 'size'
        c.gates('R6', f, {FULL['decode']}, {'decoded': 'the message was decoded'}, br={'decoded': lambda a, p, ev: truth_of(a, p, 'decode') == 1}, exits=lambda k, r: {'decoded'} if k == 'ret' else None, no_inline=stop('decode'), min_sites=1)
    if not n:
        c.bad('R6', 'messages are decoded before they are handled', 'src/CryptoNoteProtocol', construct='adaptors')
    for f in F.q('cn::LevinProtocol::decode'):
        c.gates('R6', f, {'serialize', 'cn::serialize'}, {'ser': 'the value was read without an exception'}, ev={'ser': lambda ev: ev.kind == 'call' and ev.name in ('serialize', 'serializeMap', 'loadFromBinaryKeyValue')}, exits=lambda k, r: {'ser'} if succ(k, r) else None, exc='try', max_depth=0)

    # R7
    EFF = [(fr, CK | {PH + 'processObjects'}, lambda ev: proc(ev) or drop(ev) or idle(ev), NI), (fe, KE, lambda ev: calls('request_missing_objects')(ev) or drop(ev), NE), (fg, {CTX + 'm_state', FULL['handle_get_objects']}, lambda ev: calls('post_notify')(ev) or drop(ev), stop('handle_get_objects')),
           (fq, {CTX + 'm_state'}, lambda ev: calls('post_notify')(ev) or drop(ev), ()), (fm, {CTX + 'm_state'}, lambda ev: calls('post_notify')(ev) or drop(ev), ())]
    for f, keys, eff, ni in EFF:
        c.gates('R7', f, keys | {'cn::post_notify'}, {'end': 'the message took effect or the connection is marked for shutdown or idle'}, ev={'end': eff}, exits=lambda k, r: {'end'} if k == 'ret' else None, no_inline=ni, min_sites=1)

    used = lambda ev: tx(ev) or blk(ev) or calls('processObjects', 'request_missing_objects', 'post_notify', 'relay_post_notify', 'relay_block', 'handle_get_objects', 'findBlockchainSupplement')(ev) or grows('m_needed_objects')(ev)
    for q in ('handle_notify_new_block', 'handle_notify_new_transactions', 'handle_notify_new_lite_block', 'handle_request_get_objects', 'handle_response_get_objects', 'processObjects', 'handle_request_chain', 'handle_response_chain_entry', 'handle_notify_missing_txs', 'doPushLiteBlock'):
        f = F.q1(PH + q)
        c.gates('R7', f, KO | CK | {'cn::post_notify', 'cn::relay_post_notify'}, {'open': 'the connection was not marked for shutdown before'}, kills={'open': drop}, init=frozenset({'open'}), targets=[('message used', used, {'open'})],
                no_inline=NO + stop('updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block', 'drop_connection', 'on_connection_synchronized'), min_sites=1)

    # R8
    fx = F.q1(PH + 'request_missing_objects')
    KX = CK | {CTX + 'm_remote_blockchain_height', 'cn::NOTIFY_REQUEST_GET_OBJECTS_request::blocks'}
    NX = stop('requestMissingPoolTransactions', 'on_connection_synchronized', 'have_block')
    ask = lambda ev: grows('blocks')(ev)
    follow(c, 'R8', 'a block that is asked for is recorded as requested', fx, KX, ask, done=grows('m_requested_objects', 'insert', 'emplace'), no_inline=NX)
    c.gates('R8', fx, KX, {'batch': 'the batch is within the limit'}, br={'batch': lambda a, p, ev: lt(a, p, anyt, lambda t: m.glob(t, 'BLOCKS_SYNCHRONIZING_DEFAULT_COUNT'))}, targets=[('block asked for', ask, {'batch'})], kills={'batch': ask}, no_inline=NX, min_sites=1)
    normal = writes('m_state', lambda v: enumv(v, 'state_normal'))
    c.gates('R8', fx, KX, {'height': 'the last height it answered for is its top', 'needed': 'nothing is needed', 'outstanding': 'nothing requested is outstanding'},
            br={'height': lambda a, p, ev: eq(a, p, lambda t: isf(t, 'm_last_response_height'), lambda t: m.fld(t, 'm_remote_blockchain_height')), 'needed': lambda a, p, ev: is_empty(a, p, lambda t: isf(t, 'm_needed_objects')), 'outstanding': lambda a, p, ev: is_empty(a, p, req)},
            targets=[('turned normal', normal, {'height', 'needed', 'outstanding'})], no_inline=NX, min_sites=1)
    for f in list(F.fns.values()):
        if not f.rel().startswith('src/') or CTX + 'm_requested_objects' not in f.names or f.qn == fx.qn or only_called_from(F, f, {fx.qn}):
            continue
        got = Calls(E, {CTX + 'm_requested_objects'}, (), grows('m_requested_objects', 'insert', 'emplace'), max_depth=0)
        c.run(got, f)
        c.check(not got.hits, 'R8', 'nothing else records a request', '%s in %s' % (f.loc(), f.qn), construct='request recorded in ' + f.qn)

    # R9
    fl = F.q1(PH + 'doPushLiteBlock')
    NL = NO + stop('updateObservedHeight', 'requestMissingPoolTransactions', 'relay_block', 'drop_connection')
    pend = lambda t: isf(t, 'm_pending_lite_block')
    KL = KO | {'cn::core::getTransaction', 'cn::post_notify'}
    hs = lambda t: isf(t, 'transactionHashes')
    c.gates('R9', fl, KL, {'parsed': 'the block was decoded', 'complete': 'no transaction is missing'}, br={'parsed': GR['parsed'], 'complete': lambda a, p, ev: is_empty(a, p, lambda t: 'crypto::Hash' in typeof(E, t))}, targets=[('block added', blk, {'parsed', 'complete'}), ('transaction added', tx, {'parsed', 'complete'})], no_inline=NL, min_sites=2)
    vpush = lambda ev: ev.kind == 'call' and ev.name in ('push_back', 'emplace_back', 'insert') and ev.obj is not None and typeof(E, ev.obj)
    c.each('R9', 'every transaction the header lists is found or asked for', fl, KL, hs, done=vpush, exits=lambda k, r: False, no_inline=NL)
    c.gates('R9', fl, KL, {'walked': 'all transactions of the header were looked up'}, br={'walked': lambda a, p, ev: loop_more(E, a, p, hs) == 0}, targets=[('block added', blk, {'walked'}), ('transaction added', tx, {'walked'})], no_inline=NL, min_sites=2)
    c.gates('R9', fl, KL, {'once': 'no lite block of this connection is pending'}, br={'once': lambda a, p, ev: flag(a, p, pend) == 0}, ev={'once': lambda ev: False}, targets=[('transactions asked for', lambda ev: calls('post_notify')(ev) and 'NOTIFY_MISSING_TXS' in str(ev.term) or writes('m_pending_lite_block')(ev) and 'init' in str(strip(ev.rhs)[0]), {'once'})], no_inline=NL)
    miss = lambda t: isf(t, 'missed_transactions')
    c.each('R9', 'every transaction asked for has to be provided', fl, KL, miss, done=drop, done_br=lambda a, p, ev: present(a, p), exits=lambda k, r: False, no_inline=NL)
    follow(c, 'R9', 'a transaction asked for and not provided ends the connection', fl, KL, None, trig_br=lambda a, p, ev: m.fld(a, 'missed_transactions') and missing(a, p), done=drop, no_inline=NL)
    ft = F.q1(PH + 'handle_notify_new_transactions')
    c.gates('R9', ft, {PH + 'doPushLiteBlock'}, {'pending': 'a lite block is pending'}, br={'pending': lambda a, p, ev: flag(a, p, pend) == 1}, targets=[('lite block resumed', calls('doPushLiteBlock'), {'pending'})], no_inline=stop('doPushLiteBlock') + NO, min_sites=1)


def some_left(a, p, pred):
    """the outcome says that the container is not empty"""
    a2 = stripc(a)
    if p == 0 and (a2[0] == 'empty' and pred(a2[1]) or a2[0] == 'call' and last(a2[1]) == 'empty' and a2[2] is not None and pred(a2[2])):
        return True
    s = lambda t: (t[0] == 'size' or t[0] == 'call' and last(t[1]) == 'size') and pred(t[1] if t[0] == 'size' else t[2])
    return flag(a, p, s) == 1


def present(a, p):
    a2 = stripc(a)
    return p == 1 and a2[0] == 'in' or ne(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 1


def missing(a, p):
    a2 = stripc(a)
    return p == 0 and a2[0] == 'in' or eq(a, p, lambda t: isc(t, 'find'), lambda t: isc(t, 'end')) or truth_of(a, p, 'count') == 0


def typeof(E, t):
    t = strip(t)
    return ' '.join(str(x) for x in t[1:]) if t[0] in ('obj', 'var', 'ctor', 'undef') else ''
