from sa.rules import *
from sa.engine import TRUE, FALSE
from .common import *

META = dict(
    title='A rejected block leaves no trace in the chain state',
    statement='When adding a block to the main chain is refused after some of its transactions were already entered into the chain-side indices (transaction map, spent key images, output tables), every one of those entries is taken out again before the refusal is reported, and nothing is stored in the block list. When entering a single transaction fails half way, everything it had already entered is undone. A block is reported as accepted only when it was stored together with all of its transactions.',
    over=['inputs', 'histories'],
    qtext='every block content and every chain state; every path of the block-adding and transaction-entering code to a return',
    why='A test samples one refusal reason per case; the rollback has to happen on every refusal path, including those only reachable with blocks that no test generates (over-size blocks, coinbase with a wrong reward after many transactions).',
    files=['src/CryptoNoteCore/Blockchain.cpp', 'src/CryptoNoteCore/Blockchain.h'],
    mechanism=[('popTransactions before every refusing return', 'Blockchain::pushBlock(block, transactions, id, bvc)'), ('undo of map and key-image inserts', 'Blockchain::pushTransaction')],
    state=[('transaction map, spent keys, output tables', 'chain-side indices of the main chain', 'Blockchain::m_transactionMap, m_spent_keys, m_outputs, m_multisignatureOutputs')],
    observe=['balance of have-transaction / key-image-spent queries after a refused block'],
    technique='path-sensitive typestate over the CFG (clang AST/CFG facts), interprocedural',
    level_note='Sound for the typestate modelled (no arithmetic, no heap aliasing); failures raised as exceptions by the storage layer are outside the property.',
)
MIN = 14
EXPLAIN = 'Typestate simulation of every CFG path of the block-adding and transaction-entering functions: entered/undone/committed states of transactions, with helper functions inlined.'

BC = 'cn::Blockchain::'
TX = 'cn::Blockchain::BlockEntry::transactions'


class BlockState(Rule):
    keys = staticmethod(lambda f: BC + 'pushTransaction' in f.names or BC + 'popTransactions' in f.names or stores(f))
    no_inline = (BC + 'pushTransaction', BC + 'popTransactions', BC + 'popTransaction')
    # facts: raw (entry appended to the block but not entered), pushed (entered transactions that must be undone), committed
    init = (0, 0, 0, 0)

    def __init__(self, E):
        self.E = E
        self.reset()

    def reset(self):
        self.bad = {}
        self.sites = {}

    def note(self, label, ev, ok, st):
        k = (label, ev.fn.id, ev.line)
        self.sites.setdefault(k, True)
        if not ok and self.final:
            self.sites[k] = False
            self.bad.setdefault(k, self.E.path(st))

    def event(self, f, ev, st):
        raw, pushed, com, prev = f
        if ev.kind == 'call':
            o = strip(ev.obj) if ev.obj is not None else None
            if o is not None and o[0] == 'fld' and o[2] == TX:
                root = o[1]
                while root[0] in ('copy', 'deref', 'addr'):
                    root = root[1]
                if root[0] == 'idx' or root[0] == 'call':
                    return f
                if ev.name in ('resize', 'push_back', 'emplace_back'):
                    self.note('append', ev, not raw, st)
                    raw = 1
                elif ev.name == 'pop_back':
                    self.note('drop', ev, raw or not pushed, st)
                    raw = 0
                elif ev.name == 'clear':
                    self.note('drop', ev, not pushed, st)
                    raw = 0
            if ev.qn == BC + 'pushTransaction':
                self.note('enter', ev, not com, st)
                prev = pushed
                raw, pushed = 0, 1
            elif ev.qn == BC + 'popTransactions':
                # the block handed over must contain entered transactions only
                self.note('undo', ev, not raw and (pushed or com), st)
                pushed = 0
            elif ev.name == 'push_back' and o is not None and o[0] == 'fld' and o[2] == BC + 'm_blocks':
                self.note('store', ev, not raw and pushed, st)
                com = 1
            elif ev.name == 'pop_back' and o is not None and o[0] == 'fld' and o[2] == BC + 'm_blocks':
                com = 0
        return (raw, pushed, com, prev)

    def branch(self, f, atom, pol, ev):
        t = truth_of(atom, pol, BC + 'pushTransaction')
        if t == 0:
            return (1, f[3], f[2], f[3])
        return f

    def leave(self, f, kind, ret, ev, st):
        raw, pushed, com, _ = f
        if kind == 'exc':
            return
        if ret == FALSE:
            self.note('refusal', ev, not com and not pushed, st)
        elif ret == TRUE:
            self.note('acceptance', ev, com and not raw, st)
        else:
            self.note('refusal', ev, com or not pushed, st)


TEXT = {
    'append': 'a transaction slot is appended only after the previous one was entered',
    'drop': 'only a transaction that was not entered is dropped from the block',
    'enter': 'transactions are entered before the block is stored',
    'undo': 'the undo runs on exactly the entered transactions',
    'store': 'a block is stored only with all of its transactions entered',
    'refusal': 'every refusing exit leaves no entered transaction behind and no stored block',
    'acceptance': 'every accepting exit has stored the block',
}


class PushTx(Rule):
    """insertions into the transaction map and the key image set are undone on refusing exits"""
    keys = {BC + 'm_transactionMap', BC + 'm_spent_keys'}
    zero_iter = False
    init = frozenset()

    def __init__(self, E):
        self.E = E
        self.reset()

    def reset(self):
        self.sites = {}
        self.bad = {}
        self.ins = set()

    # facts: 'm_transactionMap' / 'm_spent_keys' inserted; ('open', site): a key input was recognised at a
    # test; ('ins', site): that test leads to insertion; 'scan': the inputs were walked again; 'missed'
    def event(self, f, ev, st):
        if ev.kind != 'call' or ev.obj is None:
            return f
        o = strip(ev.obj)
        if o[0] == 'fld' and o[2] in (BC + 'm_transactionMap', BC + 'm_spent_keys'):
            n = last(o[2])
            if ev.name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'lazy_emplace'):
                self.ins.add(n)
                f = f | {n}
                if n == 'm_spent_keys':
                    opened = {x for x in f if isinstance(x, tuple) and x[0] == 'open'}
                    f = (f - opened - {'scan'}) | {('ins', x[1]) for x in opened}
                return f
            if ev.name in ('erase', 'clear'):
                f = f - {n}
                if n == 'm_spent_keys':
                    f = frozenset(x for x in f if not (isinstance(x, tuple) and x[0] == 'open'))
                return f
        return f

    def branch(self, f, atom, pol, ev):
        # result.second of an insertion: not inserted -> nothing to undo for that element
        if atom[0] == 'fld' and last(atom[2]) == 'second' and pol == 0:
            t = strip(atom[1])
            if t[0] == 'call' and t[2] is not None and strip(t[2])[0] == 'fld':
                n = last(strip(t[2])[2])
                if n == 'm_transactionMap':
                    return f - {n}
        t = type_test(atom, pol, 'KeyInput')
        if t:
            site = (ev.fn.id, ev.line)
            if any(isinstance(x, tuple) and x[0] == 'open' for x in f):
                f = f | {'missed'}
            f = frozenset(x for x in f if not (isinstance(x, tuple) and x[0] == 'open'))
            if t[1]:
                return f | {('open', site)}
            if 'm_spent_keys' in f and ('ins', site) not in f:
                return f | {'scan'}
        return f

    def leave(self, f, kind, ret, ev, st):
        k = (ev.fn.id, ev.line)
        if kind == 'exc':
            return
        if ret == FALSE:
            left = [x for x in f if x == 'm_transactionMap' or x == 'm_spent_keys' and 'scan' not in f or x == 'missed']
            if any(isinstance(x, tuple) and x[0] == 'open' for x in f):
                left.append('m_spent_keys')
            self.sites.setdefault(k, None)
            if left:
                self.sites[k] = (sorted(left), self.E.path(st))
        elif 'm_transactionMap' not in f:
            self.sites[k] = (['success without a transaction map entry'], self.E.path(st))
        else:
            self.sites.setdefault(k, None)


def stores(f):
    return any(BC + 'm_blocks' == f.ex[e[5]][4] for e in f.ex if e[0] == 'c' and e[4].endswith('SwappedVector::push_back') and e[5] >= 0 and f.ex[e[5]][0] == 'm')


def check(c):
    F, E, m = c.F, c.E, c.m
    c.rule('R1', 'typestate of a block under construction: appended -> entered -> stored; refusing exits must be clean')
    c.rule('R2', 'a refusing exit of the transaction-entering function has erased what it inserted')
    c.rule('R3', 'the undo function undoes every transaction of the block and its miner transaction')
    c.rule('R4', 'transactions are entered into the chain indices only by the analysed block-adding function')
    entries = [f for f in F.cls('cn::Blockchain') if BC + 'pushTransaction' in f.names and f.qn != BC + 'pushTransaction']
    entries = [f for f in entries if not f.parent]
    # climb to the function(s) that store the block
    tops = set()
    for f in F.cls('cn::Blockchain'):
        if f.name == 'pushBlock' and (BC + 'popTransactions' in f.names or BC + 'pushTransaction' in f.names):
            tops.add(f.id)
    if not tops:
        for f in entries:
            tops.add(f.id)
    reachtops = set()
    for t in tops:
        work = [t]
        while work:
            x = work.pop()
            if x in reachtops or x not in F.fns:
                continue
            reachtops.add(x)
            work += [y for y in F.fns[x].calls if y in F.fns and F.fns[y].cls == 'cn::Blockchain' and F.fns[y].name not in ('pushTransaction',)]
    for f in entries:
        c.check(f.id in reachtops, 'R4', 'caller of pushTransaction belongs to the analysed block-adding function', f.loc() + ' ' + f.qn, construct='caller ' + f.qn)
    for t in sorted(tops):
        fn = F.fns[t]
        r = BlockState(E)
        c.run(r, fn)
        if not any(k[0] == 'enter' for k in r.sites):
            c.broken('no transaction entered in %s' % fn.qn)
        for (label, fid, line), ok in sorted(r.sites.items()):
            f = F.fns[fid]
            if ok:
                c.ok('R1', TEXT[label], '%s in %s' % (f.loc(line), f.qn))
            else:
                c.bad('R1', TEXT[label], '%s in %s' % (f.loc(line), f.qn), r.bad.get((label, fid, line), ()), construct='%s in %s' % (label, f.qn))
    fn = F.q1(BC + 'pushTransaction')
    r = PushTx(E)
    c.run(r, fn)
    c.check({'m_transactionMap', 'm_spent_keys'} <= r.ins, 'R2', 'transaction and key images are inserted', fn.loc(), construct='inserts')
    for (fid, line), b in sorted(r.sites.items()):
        f = F.fns[fid]
        if b is None:
            c.ok('R2', 'exit leaves nothing inserted on refusal', f.loc(line))
        else:
            c.bad('R2', 'refusing exit leaves entries in ' + ', '.join(b[0]), '%s in %s' % (f.loc(line), f.qn), b[1], construct='refusing exit keeps ' + ','.join(b[0]))
    # popTransactions covers all transactions and the miner transaction
    fn = F.q1(BC + 'popTransactions')
    c.gates('R3', fn, {BC + 'popTransaction'}, {'miner': 'the miner transaction is undone', 'loop': 'the transactions of the block are undone'},
            ev={'miner': lambda ev: ev.kind == 'call' and ev.qn == BC + 'popTransaction' and m.fld(ev.args[0], 'baseTransaction'),
                'loop': lambda ev: ev.kind == 'call' and ev.qn == BC + 'popTransaction' and m.fld(ev.args[0], TX)},
            exits=lambda k, r: {'miner', 'loop'} if k == 'ret' else None, zero_iter=False, no_inline=(BC + 'popTransaction',))
    from .c02 import cover_transactions, undo_tx
    cover_transactions(c, fn, 'R3')
    c.rule('R5', 'undoing a transaction takes out every input and output entry, the payment-id entry and the map entry')
    undo_tx(c, 'R5')
    c.rule('R6', 'an accepted block has every transaction it lists entered')
    for t in sorted(tops):
        f = F.fns[t]
        vec = [v[3] for v in f.vars if v[2] == 'p' and 'std::vector<cn::Transaction' in f.types[v[1]]]
        if len(vec) == 1:
            c.each('R6', 'every transaction of the block is entered', f, BlockState.keys, lambda t: t[0] == 'param' and t[1] == vec[0],
                   done=lambda ev: ev.kind == 'call' and ev.qn == BC + 'pushTransaction' and m.has(ev.args[0], lambda x: x[0] == 'obj'),
                   exits=lambda k, r: k == 'ret' and r != FALSE, no_inline=BlockState.no_inline)
