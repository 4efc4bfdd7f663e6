"""Properties that hold the system's weight but that this technique cannot decide."""
NA = [
    ('N01', dict(
        title='Difficulty, reward and proof-of-work values follow the published schedules',
        statement='For every block height and every history of timestamps and block sizes, the required difficulty, the block reward and the accepted proof of work are exactly those of the published emission and difficulty schedules.',
        over=['inputs', 'histories'], qtext='every height, timestamp sequence and size history',
        why='The value depends on unbounded histories; tests replay a recorded prefix of the schedule.',
        files=['src/CryptoNoteCore/Currency.cpp', 'src/CryptoNoteCore/Difficulty.cpp'],
        mechanism=[('difficulty and reward formulas', 'Currency::nextDifficulty*, Currency::getBlockReward, Currency::calculateInterest')]),
     'The property is an equality between 64/128-bit arithmetic and an external numeric schedule; no dataflow or typestate argument bounds those values.'),
    ('N02', dict(
        title='Ring signatures and key images are sound and unlinkable',
        statement='Nobody can produce an accepted spend of an output without its secret key, two spends of one output always carry the same key image, and an accepted spend does not reveal which ring member was spent.',
        over=['inputs', 'programs'], qtext='every adversary and every message',
        why='Cryptographic soundness quantifies over all adversaries.',
        files=['src/crypto/crypto.cpp', 'src/crypto/crypto-ops.c'],
        mechanism=[('ring signature algebra', 'crypto_ops::check_ring_signature, crypto_ops::generate_ring_signature')]),
     'Soundness of the group arithmetic and of the signature scheme is an algebraic statement; static analysis of the source decides only that the checks are made (claimed separately).'),
    ('N03', dict(
        title='Everything written is read back identically',
        statement='For every value of every message, block, transaction and wallet type, reading what was written yields the same value and consumes exactly the bytes written.',
        over=['inputs'], qtext='every value of every serialised type',
        why='Tests round-trip chosen values.',
        files=['src/Serialization', 'src/CryptoNoteCore/CryptoNoteSerialization.cpp'],
        mechanism=[('one serialize function for both directions', 'serialize(T&, ISerializer&)')]),
     'Value equality after variable-length encoding depends on runtime lengths and bit patterns that the analysis does not track.'),
    ('N04', dict(
        title='A connected node eventually reaches the best chain of its honest peers',
        statement='A node with at least one honest reachable peer eventually adopts the chain with the most cumulative work that this peer offers, whatever the other peers send.',
        over=['schedules', 'histories'], qtext='every schedule and every mix of peers',
        why='Liveness under arbitrary schedules cannot be observed in a finite test.',
        files=['src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp', 'src/P2p/NetNode.cpp'],
        mechanism=[('synchronisation state machine', 'CryptoNoteProtocolHandler::request_missing_objects')]),
     'A liveness property over unbounded schedules and network timing; the static rules in reach decide safety only.'),
]
