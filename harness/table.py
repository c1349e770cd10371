"""Which suites and which kinds of deviation (facets) decide which property."""

ASSUME = ['cryptographic primitives are ideal: nothing opens or verifies except under the exact key, nonce and message (symbolic model)',
          'model bounds as listed per suite; concrete keys, times and payloads are drawn from the seed']

PROPS = {
    'C01': dict(suites=['hs', 'mitm', 'retry'], deep=['mitmdeep'],
                facets=['accept.c.hs', 'early', 'ident', 'wire.sig', 'exc']),
    'C02': dict(suites=['hs', 'mitm', 'retry'], deep=['mitmdeep'],
                facets=['accept.s.hs', 'early', 'ident', 'wire.sig', 'exc']),
    'C03': dict(suites=['hs', 'honest', 'buf', 'fault', 'mitm1', 'retry'],
                facets=['wire', 'skey', 'early', 'accept.c.hs']),
    'C04': dict(suites=['buf', 'fault', 'data', 'drop', 'enc', 'conc', 'faults', 'long', 'jump', 'blocks'],
                facets=['wire.nonce', 'wire.seal', 'wire.missing', 'wire.extra', 'trace', 'enc.packets']),
    'C05': dict(suites=['data', 'drop', 'mitm1', 'enc', 'attack', 'long'],
                facets=['enc.bad', 'enc.data', 'enc.read', 'accept.c.data', 'accept.s.data', 'accept.c.hs', 'accept.s.hs', 'data', 'reject.data', 'exc', 'early', 'trace']),
    'C06': dict(suites=['size', 'buf', 'honest', 'blocks', 'conc', 'long', 'stack'],
                facets=['data', 'reject.data', 'wire.data', 'wire.body', 'wire.seal', 'wire.nonce', 'wire.missing', 'wire.extra', 'wire.group',
                        'accept.c.data', 'accept.s.data', 'exc', 'early', 'trace']),
    'C07': dict(suites=['buf', 'data', 'fault', 'enc', 'blocks', 'conc', 'stack'],
                facets=['wire.flag', 'wire.lastarg', 'last', 'trace', 'enc.packets', 'enc.last', 'enc.flag']),
    'C08': dict(suites=['honest5', 'honest', 'buf', 'want', 'retry'],
                facets=['reject.hs', 'reject.data', 'wire', 'ident', 'skey', 'early', 'exc', 'accept.c.hs', 'accept.s.hs']),
    'C09': dict(suites=['want', 'hs'],
                facets=['accept.c.hs', 'accept.s.hs', 'reject.hs', 'exc', 'wire.body', 'wire.time', 'wire.flag', 'wire.lastarg', 'wire.extra', 'wire.missing', 'early']),
    'C10': dict(suites=['a1', 'hs', 'retry'],
                facets=['a1open', 'a2', 'wire.body', 'wire.flag', 'wire.lastarg', 'wire.extra', 'wire.missing', 'wire.group', 'accept', 'reject', 'exc', 'early']),
    'C11': dict(suites=['hs', 'a1', 'data', 'wses'],
                facets=['exc', 'accept', 'early', 'judge.ses']),
    'C12': dict(suites=['codec', 'wses', 'size'],
                facets=['judge', 'wire', 'data', 'exc']),
    'C13': dict(suites=['time', 'first', 'rej', 'honest5', 'buf', 'hs'],
                facets=['wire.time', 'chk', 'data', 'early', 'exc.class', 'exc.family', 'accept', 'reject']),
    'C14': dict(suites=['buf', 'honest', 'fault'],
                facets=['wire', 'reject', 'early', 'data', 'ident', 'exc', 'accept']),
    'C15': dict(suites=['frames', 'fifo', 'stack'],
                facets=['stream', 'sync.stream', 'trace']),
    'C16': dict(suites=['api', 'synca1', 'synchs', 'syncbuf', 'syncdata', 'syncfault', 'synctime', 'enc', 'frames'],
                facets=['sync']),
    'C17': dict(suites=['multi', 'threads', 'par'],
                facets=['multi', 'trace']),
    'C18': dict(suites=['crypto'],
                facets=['trace', 'lib.died']),
    'C19': dict(suites=['select'],
                facets=['lib']),
    'C20': dict(suites=['conc', 'faults', 'fault', 'stack'],
                facets=['trace', 'wire', 'data', 'exc', 'reject.data', 'early']),
    'C21': dict(suites=['monitor', 'tunnel', 'monses', 'monhs', 'stack'],
                facets=['mon', 'trace']),
    'C22': dict(suites=['pure'],
                facets=['trace', 'lib.died'],
                note='Call histories recorded from the port and a reference implementation, each checked by TLC against the ideal functionality; the histories are '
                     'sampled (seeded), the arithmetic itself is not modelled.'),
    'C23': dict(suites=['pair', 'examples', 'echo'],
                facets=['trace', 'pair', 'example'],
                note='All schedules of small client groups on the model (safety and termination); each group is run on the real pairs and its history checked; '
                     'which schedule the real run takes is up to the operating system.'),
}

NA = {}

_MC = 'TLA+ model SaltV2/SaltMC checked with TLC; every explored transition replayed in the real sessions and compared'
TECH = {
    'C04': _MC + '; histories recorded from real sessions (concurrent, failing, very long, counters preset) checked against SaltTrace and SaltBlocks',
    'C05': _MC + '; recorded attack histories checked against SaltTrace',
    'C06': _MC + '; recorded histories checked against SaltTrace, SaltBlocks (run-length coded huge batches) and Stack (sessions over real sockets)',
    'C07': _MC + '; recorded histories checked against SaltTrace, SaltBlocks and Stack',
    'C11': _MC + '; byte-level judgement of arbitrary messages at each protocol step by Wire.tla in TLC',
    'C12': 'TLA+ wire grammar (Wire.tla): TLC judges every encoding and decoding recorded from the real packet classes',
    'C15': 'TLA+ model Framing of the byte stream: TLC enumerates all segmentations and endings, each played to the real channels; recorded socket histories checked against Fifo.tla and Stack.tla',
    'C16': _MC + ' through the blocking API in threads with and without loops; EncChan and Framing behaviours played through both APIs',
    'C17': 'TLA+ interleavings (Sessions.tla) of SaltMC behaviours, replayed in one loop and in parallel threads; each session compared with its own model run; histories of sessions in parallel threads checked against SaltTrace',
    'C18': 'TLA+ ideal functionality CryptoApi.tla: recorded call histories over mixed back ends and a reference checked by TLC',
    'C19': 'TLA+ model LibSelect: every installation, request history and use enumerated by TLC and played in processes with that installation',
    'C20': _MC + ' with failing and cancelled writes; recorded concurrent histories checked against SaltTrace and Stack',
    'C21': 'TLA+ model Monitor: every behaviour played to the real monitor; tunnels checked against Fifo.tla and Stack.tla; SaltMC behaviours replayed through monitors',
    'C22': 'TLA+ ideal functionality CryptoApi.tla: recorded call histories over the pure-Python back end and a reference checked by TLC',
    'C23': 'TLA+ model Pair (schedules, termination) checked with TLC; its groups run on the real pairs, recorded histories checked against PairTrace; '
           'example sessions compared with the runs of SaltV2 in Examples.tla',
}
for _p, _t in PROPS.items():
    _t['technique'] = TECH.get(_p, _MC)
