"""The suites: what is checked on the specification with TLC, and what is replayed in / recorded from the code."""
import json
import os
import random
import time

import gen
import pool
import tlc


class Result:
    def __init__(self, name):
        self.name = name
        self.states = self.transitions = self.traces = 0
        self.findings = []     # dict(facet, text, item, task)
        self.samples = []
        self.note = {}
        self.wall = 0.0


def _collect(res, task, items, found):
    for i, bad in found:
        for b in bad:
            res.findings.append({'facet': b[1], 'text': b[2], 'step': b[0], 'task': task, 'item': items[i], 'suite': res.name})


def replay_suite(name, consts, reps=1, cap=None, timeout=700, ways=None, task='tasks_replay:replay'):
    """TLC explores the model completely (invariants checked on every state); every transition printed is replayed."""
    def run(ctx):
        t0 = time.time()
        res = Result(name)
        r = gen.generate(consts, timeout=timeout)
        if r.violation:
            raise pool.HarnessError('the specification itself violates its properties:\n' + r.violation[:3000])
        res.states, res.transitions = r.distinct, r.states
        ps = gen.paths(r, ctx.seed)
        total = len(ps)
        rng = random.Random('cap/%s/%s' % (name, ctx.seed))
        if cap and len(ps) > cap:
            rng.shuffle(ps)
            ps = ps[:cap]
        items = []
        for k in range(reps):
            for i, p in enumerate(ps):
                it = dict(p)
                it['seed'] = '%s/%s/%d/%d' % (ctx.seed, name, k, i)
                if ways:
                    it['way'] = ways[(i + k) % len(ways)]
                items.append(it)
        found, st = pool.run(task, items, timeout=timeout)
        res.traces = st['done']
        res.note = {'model': {k: str(v) for k, v in consts.items()}, 'behaviours': total, 'replayed': st['done'], 'depth': r.depth,
                    'exhaustive': total == len(ps)}
        if items:
            it = items[rng.randrange(len(items))]
            res.samples.append({'suite': name, 'cfg': it['cfg'], 'steps': [short(json.loads(s)) for s in it['steps'][:12]]})
        _collect(res, task, items, found)
        res.wall = time.time() - t0
        return res
    run.suite_name = name
    return run


def short(o):
    s = '%s(%s)' % (o['a'], o['e'])
    if o['m']['t'] != 'NIL':
        s += ' ' + o['m']['t'] + (('~' + o['m']['x']) if o['m']['x'] else '')
    if o['ds']:
        s += ' ' + ','.join(d[0] for d in o['ds'])
    return s + ' -> ' + o['r']['k']


def model_suite(name, consts, workers=8, timeout=800):
    """TLC only: the properties on the specification at bounds too large to replay completely."""
    def run(ctx):
        t0 = time.time()
        res = Result(name)
        r = gen.generate(consts, workers=workers, timeout=timeout, gen=False)
        if r.violation:
            raise pool.HarnessError('the specification itself violates its properties:\n' + r.violation[:3000])
        res.states, res.transitions = r.distinct, r.states
        res.note = {'model': {k: str(v) for k, v in consts.items()}, 'tlc_only': True, 'depth': r.depth}
        res.wall = time.time() - t0
        return res
    run.suite_name = name
    return run


Q, T = {}, {}
# name: quick suite / thorough suite
R = replay_suite
Q['honest'] = R('honest', dict(Cfgs='CfgAll', Batches='B3', MaxW=1, MaxT=2), reps=1)
Q['honest5'] = R('honest5', dict(Cfgs='CfgAll'), reps=6)
Q['hs'] = R('hs', dict(Cfgs='CfgAtk', Attack='AtkHs', Budget=1))
Q['first'] = R('first', dict(Cfgs='CfgNull', Attack='AtkTamper', Budget=1))
Q['mitm'] = R('mitm', dict(Cfgs='CfgMitm', Attack='AtkMitm', Budget=2))
Q['mitm1'] = R('mitm1', dict(Cfgs='CfgMitm', Attack='AtkMitm', Budget=1))
Q['data'] = R('data', dict(Cfgs='CfgOne', Batches='B3', MaxW=2, MaxT=2, Lasts='BothLast', Attack='AtkData'))
Q['drop'] = R('drop', dict(Cfgs='CfgTwo', Batches='B1', MaxW=2, MaxT=3, Attack='AtkDrop', Budget=2))
Q['buf'] = R('buf', dict(Cfgs='CfgBuf', Batches='B6', MaxW=2, MaxT=2, Lasts='BothLast'))
Q['size'] = R('size', dict(Cfgs='CfgTwo', Batches='B9', MaxW=2, MaxT=2), reps=1)
Q['time'] = R('time', dict(Cfgs='CfgTime', Batches='B3', MaxW=1, MaxT=2))
Q['rej'] = R('rej', dict(Cfgs='CfgRej', Batches='B3', MaxW=2, MaxT=2, Lasts='BothLast'), reps=1)
T['rej'] = R('rej3', dict(Cfgs='CfgRej', Batches='B3', MaxW=3, MaxT=3, Lasts='BothLast'), cap=120000)
Q['fault'] = R('fault', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults', Lasts='BothLast'), reps=2)
Q['a1'] = R('a1', dict(Cfgs='CfgA1', Attack='AtkA1', MaxW=3), reps=3)
Q['retry'] = R('retry', dict(Cfgs='CfgRetry', Attack='AtkRetry', Budget=2))
Q['want'] = R('want', dict(Cfgs='CfgWant'), reps=40)

T['mitm'] = R('mitm3', dict(Cfgs='CfgMitm', Attack='AtkMitm', Budget=3))
T['mitmdeep'] = model_suite('mitm4', dict(Cfgs='CfgMitm', Attack='AtkMitm', Budget=4))
T['honest5'] = R('honest5', dict(Cfgs='CfgAll'), reps=40)
T['fault'] = R('fault3', dict(Cfgs='CfgBuf4', Batches='B3', MaxW=3, MaxT=3, Faults='AllFaults', Lasts='BothLast'), cap=150000)
T['buf'] = R('buf', dict(Cfgs='CfgBuf', Batches='B6', MaxW=2, MaxT=2, Lasts='BothLast'), reps=4)
T['size'] = R('size', dict(Cfgs='CfgBuf4', Batches='B9', MaxW=2, MaxT=2, Lasts='BothLast'), reps=2, cap=60000)
T['want'] = R('want', dict(Cfgs='CfgWant'), reps=400)
T['a1'] = R('a1', dict(Cfgs='CfgA1', Attack='AtkA1', MaxW=3), reps=20)
T['data'] = R('data3', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Lasts='BothLast', Attack='AtkData'), reps=3)
T['hs'] = R('hs', dict(Cfgs='CfgAtk', Attack='AtkHs', Budget=1), reps=4)


def suite(name, tier):
    return T[name] if tier == 'thorough' and name in T else Q[name]


# --------------------------------------------------------------- recorded histories
def trace_suite(name, module, task, make, props=(), timeout=600, heap='6g', batch=400, consts=None, spec='Spec'):
    """Runs the items make(ctx) in the code; each writes the history it saw to item['out']; TLC decides whether every
    history is a behaviour of `module`."""
    def run(ctx):
        import shutil
        import tempfile
        t0 = time.time()
        res = Result(name)
        d = tempfile.mkdtemp(prefix='salttrace.')
        try:
            items = make(ctx)
            for n, it in enumerate(items):
                it.setdefault('seed', '%s/%s/%d' % (ctx.seed, name, n))
                it['out'] = os.path.join(d, '%06d.json' % n)
            if hasattr(make, 'tlc'):
                res.states, res.transitions = make.tlc
            found, st = pool.run(task, items, timeout=timeout)
            _collect(res, 'trace' + ':' + module + ':' + task, items, found)
            have = []          # (item, file)
            for n, it in enumerate(items):
                for f in [it['out']] + ['%s.%d' % (it['out'], k) for k in range(1, it.get('threads', 1))]:
                    if os.path.exists(f):
                        have.append((n, f))
            nev = 0
            kinds = {}
            for k in range(0, len(have), batch):
                part = have[k:k + batch]
                traces = [json.load(open(f)) for n, f in part]
                r = tlc.run(module, tlc.cfg_text(dict(consts or {}, TraceFile='"T.json"'), invariants=['Progress'], properties=props, post='Report', spec=spec),
                            files={'T.json': json.dumps(traces)}, timeout=timeout, heap=heap)
                if r.violation:
                    raise pool.HarnessError('trace specification %s: %s' % (module, r.violation[:3000]))
                res.states += r.distinct
                res.transitions += r.states
                out = {}
                for l in r.lines:
                    _, a, b, c = l.split()
                    out[int(a)] = (int(b), int(c))
                assert len(out) == len(part), (len(out), len(part))
                for q, (n, _) in enumerate(part):
                    got, want = out[q + 1]
                    ev = traces[q]['ev']
                    assert want == len(ev)
                    nev += len(ev)
                    for v in ev:
                        kinds[v['k']] = kinds.get(v['k'], 0) + 1
                    if got != want:
                        v = ev[got]
                        it = {k: x for k, x in items[n].items() if k != 'out'}
                        res.findings.append({'facet': 'trace.' + v['k'], 'step': got + 1, 'task': 'trace:' + module + ':' + task, 'consts': consts, 'item': it, 'suite': name,
                                             'text': 'the recorded history is no behaviour of %s: event %d of %d is not allowed: %s\n  before it: %s' % (
                                                 module, got + 1, want, json.dumps(v)[:900], json.dumps(ev[max(0, got - 2):got])[:900])})
                    elif len(res.samples) < 1 and ev:
                        res.samples.append({'suite': name, 'history': [json.dumps(v)[:160] for v in ev[:8]], 'events': len(ev)})
            res.traces = len(have)
            res.note = {'histories': len(have), 'events': nev, 'event_kinds': kinds, 'module': module}
            res.wall = time.time() - t0
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    run.suite_name = name
    return run


def _sched(profile, n, k):
    def make(ctx):
        return [dict(kind='sched', profile=profile, n=n, cfg=dict(b4=i % 3 == 0, b2=i % 2 == 0)) for i in range(k)]
    return make


def _par(k, n):
    def make(ctx):
        r = random.Random('par/%s' % ctx.seed)
        return [dict(kind='sched', profile=r.choice(['conc', 'conc', 'attack']), n=n, threads=r.choice([2, 3, 4, 6]), size=r.choice([1, 5, 32, 100, 300]),
                     cfg=dict(b4=i % 3 == 0, b2=i % 2 == 0)) for i in range(k)]
    return make


def _long(upto):
    def make(ctx):
        return [dict(kind='longrun', side=e, upto=upto) for e in 'cs']
    return make


def _jump(n):
    def make(ctx):
        return [dict(kind='jump', base=(1 << b) - off, n=25) for b in (8, 15, 16, 24, 31, 32, 33, 48, 53, 62, 63) for off in (6, 12, 20)[:n]]
    return make


COUNTS = [[[65535, 3]], [[65536, 3]], [[65537, 3]], [[2, 65535]], [[1, 65536], [3, 2]], [[127, 2], [129, 5]], [[70, 65535]], [[0x8000, 2]],
          [[256, 300]], [[1, 65535], [1, 0]], [[3, 0]], [[1, 0]], [[1, 1 << 20]], [[255, 1]], [[1, 65534], [1, 65535], [1, 1]], [[0x7fff, 2]],
          [[1, 1], [1, 70000], [1, 0], [1, 65535]], [[16, 4096], [1, 1 << 17], [16, 0]], [[65534, 0], [1, 9]], [[1000, 1000]]]


def _blocks(reps):
    def make(ctx):
        r = random.Random('blocks/%s' % ctx.seed)
        out = []
        for k in range(reps):
            for i, b in enumerate(COUNTS):
                for e in 'cs':
                    out.append(dict(side=e, batches=[b], cfg=dict(b4=(i + k) % 2 == 0, b2=i % 3 == 0)))
            for i in range(12):
                b = [[r.choice([1, 1, 2, 3, 17, 200, r.randrange(1, 2000)]), r.choice([0, 1, 2, 7, 255, 256, 1000, 65535, 65536, r.randrange(3000)])] for _ in range(r.choice([1, 2, 3]))]
                b = [[min(n, max(1, 3000000 // (z + 1))), z] for n, z in b]
                out.append(dict(side=r.choice('cs'), batches=[b, [[r.choice([1, 2, 5]), 6]]], cfg=dict(b4=i % 2 == 0, b2=False)))
        return out
    return make


TS = trace_suite
SP = ['CountersGrow']
Q['conc'] = TS('conc', 'SaltTrace', 'tasks_trace:record', _sched('conc', 60, 200), SP)
Q['faults'] = TS('faults', 'SaltTrace', 'tasks_trace:record', _sched('faults', 60, 100), SP)
Q['attack'] = TS('attack', 'SaltTrace', 'tasks_trace:record', _sched('attack', 80, 100), SP)
Q['long'] = TS('long', 'SaltTrace', 'tasks_trace:record', _long(66200), SP)
Q['jump'] = TS('jump', 'SaltTrace', 'tasks_trace:record', _jump(1), SP)
Q['par'] = TS('par', 'SaltTrace', 'tasks_trace:parallel', _par(16, 120), SP)
T['par'] = TS('par', 'SaltTrace', 'tasks_trace:parallel', _par(200, 250), SP)
Q['blocks'] = TS('blocks', 'SaltBlocks', 'tasks_blocks:record', _blocks(1))
T['conc'] = TS('conc', 'SaltTrace', 'tasks_trace:record', _sched('conc', 120, 2500), SP)
T['faults'] = TS('faults', 'SaltTrace', 'tasks_trace:record', _sched('faults', 120, 1500), SP)
T['attack'] = TS('attack', 'SaltTrace', 'tasks_trace:record', _sched('attack', 150, 1000), SP)
T['long'] = TS('long', 'SaltTrace', 'tasks_trace:record', _long(263000), SP, batch=1)
T['jump'] = TS('jump', 'SaltTrace', 'tasks_trace:record', _jump(3), SP)
T['blocks'] = TS('blocks', 'SaltBlocks', 'tasks_blocks:record', _blocks(4))


def judge_suite(name, module, task, make, timeout=600, consts=None):
    """As trace_suite, but every event is judged on its own and all rejected ones are reported."""
    def run(ctx):
        import shutil
        import tempfile
        t0 = time.time()
        res = Result(name)
        d = tempfile.mkdtemp(prefix='saltjudge.')
        try:
            items = make(ctx)
            for n, it in enumerate(items):
                it.setdefault('seed', '%s/%s/%d' % (ctx.seed, name, n))
                it['out'] = os.path.join(d, '%06d.json' % n)
            found, st = pool.run(task, items, timeout=timeout)
            _collect(res, 'judge' + ':' + module + ':' + task, items, found)
            have = [n for n, it in enumerate(items) if os.path.exists(it['out'])]
            traces = [json.load(open(items[n]['out'])) for n in have]
            nev = sum(len(t['ev']) for t in traces)
            if traces:
                r = tlc.run(module, tlc.cfg_text(dict(consts or {}, TraceFile='"T.json"')), files={'T.json': json.dumps(traces)}, timeout=timeout, workers=4)
                res.states, res.transitions = r.distinct, r.states
                if r.distinct != nev + len(traces):
                    raise pool.HarnessError('%s: %d of %d events judged' % (module, r.distinct - len(traces), nev))
                for l in r.lines:
                    _, _, a, b = l.split()
                    a, b = int(a) - 1, int(b) - 1
                    v = traces[a]['ev'][b]
                    it = {k: x for k, x in items[have[a]].items() if k != 'out'}
                    res.findings.append({'facet': 'judge.' + v['k'], 'step': b + 1, 'task': 'judge:' + module + ':' + task, 'consts': consts, 'item': it, 'suite': name,
                                         'text': '%s does not allow this: %s' % (module, json.dumps(v)[:1200])})
            kinds = {}
            for t in traces:
                for v in t['ev']:
                    k = v['k'] + '.' + str(v.get('kind', v.get('st', '')))
                    kinds[k] = kinds.get(k, 0) + 1
            if traces and traces[0]['ev']:
                rr = random.Random(ctx.seed)
                res.samples.append({'suite': name, 'events': [json.dumps(rr.choice(t['ev']))[:300] for t in traces[:4] if t['ev']]})
            res.traces = nev
            res.note = {'events': nev, 'kinds': kinds, 'module': module}
            res.wall = time.time() - t0
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    run.suite_name = name
    return run


WKINDS = ['M1', 'M2', 'M3', 'M4', 'E', 'APP', 'MUL', 'A1', 'A2']


def _codec(reps, full):
    return lambda ctx: [dict(kind=k, full=full, n=25 * (4 if full else 1), m=5 if full else 2) for _ in range(reps) for k in WKINDS]


def _wses(reps, full):
    return lambda ctx: [dict(st=s, full=full) for _ in range(reps) for s in ('w1', 'w2', 'w3', 'w4', 'w9', 'copen', 'sopen')]


J = judge_suite
Q['codec'] = J('codec', 'Wire', 'tasks_wire:codec', _codec(2, False))
T['codec'] = J('codec', 'Wire', 'tasks_wire:codec', _codec(6, True))
Q['wses'] = J('wses', 'Wire', 'tasks_wire:session', _wses(2, False))
T['wses'] = J('wses', 'Wire', 'tasks_wire:session', _wses(6, True))


# --------------------------------------------------------------- complete behaviours printed by a specification
def play_suite(name, module, consts, task, hows, invariants, properties=(), cap=None, timeout=600, workers=4, reps=1):
    """TLC explores `module` completely and prints every complete behaviour ("OUT <json>"); each is played to the code."""
    def run(ctx):
        t0 = time.time()
        res = Result(name)
        lines = []
        for c in consts:
            c = dict(c)
            sim = c.pop('simulate', None)        # (behaviours, steps): random behaviours instead of all
            if sim:
                r = tlc.run(module, tlc.cfg_text(c, invariants=invariants, properties=properties), workers=1, timeout=timeout,
                            extra=['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1] + 1), '-seed', str(1000 + int(ctx.seed))])
            else:
                r = tlc.run(module, tlc.cfg_text(c, invariants=invariants, properties=properties), workers=workers, timeout=timeout)
            if r.violation:
                raise pool.HarnessError('the specification %s violates its properties:\n%s' % (module, r.violation[:3000]))
            res.states += r.distinct
            res.transitions += r.states
            if sim and len(r.lines) > 2 * sim[0]:      # (TLC prints the last step's alternatives too)
                r.lines = random.Random(ctx.seed).sample(sorted(r.lines), 2 * sim[0])
            lines += r.lines
        lines = sorted(set(lines))
        rng = random.Random('play/%s/%s' % (name, ctx.seed))
        total = len(lines)
        if cap and total > cap:
            lines = rng.sample(lines, cap)
        items = []
        for k in range(reps):
            for i, l in enumerate(lines):
                for h in (hows if hows is not None else [None]):
                    items.append(dict(beh=json.loads(l[4:]), how=h, seed='%s/%s/%d/%d/%s' % (ctx.seed, name, k, i, h)))
        found, st = pool.run(task, items, timeout=timeout)
        res.traces = st['done']
        res.note = {'module': module, 'behaviours': total, 'played': len(items), 'ways': hows, 'exhaustive': len(lines) == total and not any('simulate' in c for c in consts),
                    'model': [{k: str(v) for k, v in c.items()} for c in consts]}
        if items:
            res.samples.append({'suite': name, 'behaviour': json.dumps(items[rng.randrange(len(items))]['beh'])[:1200]})
        _collect(res, task, items, found)
        res.wall = time.time() - t0
        return res
    run.suite_name = name
    return run


ENDS = '{"eof", "err"}'
HOWS = ['sock', 'socka', 'stre', 'strl', 'strs']
FR = ['ReadExactly', 'Gen']
Q['frames'] = play_suite('frames', 'Framing', [dict(Streams='Short', MaxCut=12, Ends=ENDS), dict(Streams='Long', MaxCut=2, Ends=ENDS)], 'tasks_stream:play', HOWS, FR)
T['frames'] = play_suite('frames3', 'Framing', [dict(Streams='Short', MaxCut=12, Ends=ENDS), dict(Streams='Long', MaxCut=3, Ends=ENDS),
                                               dict(Streams='Big', MaxCut=3, Ends=ENDS)], 'tasks_stream:play', HOWS, FR)


def _fifo(hows, n, k, mitm=False):
    def make(ctx):
        return [dict(how=h, n=n, big=i % 4 == 0, mitm=mitm and i % 2 == 1) for i in range(k) for h in hows] + [
            dict(how='tunnel', n=n // 2, big=False, mitm=j == 1, burst=3300) for j in range(2) if mitm]
    return make


Q['fifo'] = TS('fifo', 'Fifo', 'tasks_fifo:record', _fifo(['pair', 'tcp', 'async', 'raw'], 30, 10))
T['fifo'] = TS('fifo', 'Fifo', 'tasks_fifo:record', _fifo(['pair', 'tcp', 'async', 'raw'], 120, 60))
Q['tunnel'] = TS('tunnel', 'Fifo', 'tasks_fifo:record', _fifo(['tunnel', 'tunnelmp', 'pipe', 'pair', 'async'], 80, 12, mitm=True))
T['tunnel'] = TS('tunnel', 'Fifo', 'tasks_fifo:record', _fifo(['tunnel', 'tunnelmp', 'pipe', 'pair', 'async'], 300, 60, mitm=True))


def _stack(k):
    return lambda ctx: [dict(how=h, mitm=i % 3 == 2) for i in range(k) for h in ('async', 'async', 'async', 'sock', 'pipe')]


Q['stack'] = TS('stack', 'Stack', 'tasks_stack:record', _stack(24))
T['stack'] = TS('stack', 'Stack', 'tasks_stack:record', _stack(300))

CHANS = ['block', 'aloop']
KINDS = ['noloop', 'loop', 'afterrun', 'explicit', 'explicit2']
WAYS = [[a + '/' + b, c + '/' + d] for a in CHANS for b in KINDS for c in CHANS for d in KINDS]
random.Random(5).shuffle(WAYS)
S = 'tasks_replay:replay_sync'
Q['synchs'] = R('synchs', dict(Cfgs='CfgAtk', Attack='AtkHs', Budget=1), cap=6000, ways=WAYS, task=S)
Q['syncbuf'] = R('syncbuf', dict(Cfgs='CfgBuf', Batches='B6', MaxW=2, MaxT=2, Lasts='BothLast'), cap=4000, ways=WAYS, task=S)
Q['syncdata'] = R('syncdata', dict(Cfgs='CfgOne', Batches='B3', MaxW=2, MaxT=2, Lasts='BothLast', Attack='AtkData'), cap=1500, ways=WAYS, task=S)
Q['syncfault'] = R('syncfault', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults', Lasts='BothLast'), cap=3000, ways=WAYS, task=S)
Q['synca1'] = R('synca1', dict(Cfgs='CfgA1', Attack='AtkA1', MaxW=3), ways=WAYS, task=S)
Q['synctime'] = R('synctime', dict(Cfgs='CfgTime', Batches='B3', MaxW=1, MaxT=2), cap=2000, ways=WAYS, task=S)
T['synchs'] = R('synchs', dict(Cfgs='CfgAtk', Attack='AtkHs', Budget=1), cap=60000, ways=WAYS, task=S)
T['syncbuf'] = R('syncbuf', dict(Cfgs='CfgBuf', Batches='B6', MaxW=2, MaxT=2, Lasts='BothLast'), ways=WAYS, task=S)
T['syncdata'] = R('syncdata', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Lasts='BothLast', Attack='AtkData'), ways=WAYS, task=S)
T['syncfault'] = R('syncfault', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults', Lasts='BothLast'), reps=4, ways=WAYS, task=S)
T['synca1'] = R('synca1', dict(Cfgs='CfgA1', Attack='AtkA1', MaxW=3), reps=10, ways=WAYS, task=S)
T['synctime'] = R('synctime', dict(Cfgs='CfgTime', Batches='B3', MaxW=1, MaxT=2), ways=WAYS, task=S)

EI = ['Inv', 'Gen']
Q['enc'] = play_suite('enc', 'EncChan', [dict(Steps=3, MaxW=2, Batches='B1', Tricks='T2', Fails='F0'), dict(Steps=4, MaxW=2, Batches='B1', Tricks='T1', Fails='F0'),
                                         dict(Steps=3, MaxW=2, Batches='B2', Tricks='T0', Fails='F1')],
                      'tasks_enc:play', ['async', 'sync'], EI, cap=14000)
T['enc'] = play_suite('enc5', 'EncChan', [dict(Steps=4, MaxW=3, Batches='B1', Tricks='T2', Fails='F0'), dict(Steps=5, MaxW=2, Batches='B1', Tricks='T1', Fails='F0'),
                                          dict(Steps=4, MaxW=3, Batches='B2', Tricks='T0', Fails='F1')],
                      'tasks_enc:play', ['async', 'sync'], EI, cap=100000)


def task_suite(name, task, make, timeout=600):
    """Static facts of the code under test that need no behaviours (item list from make)."""
    def run(ctx):
        t0 = time.time()
        res = Result(name)
        items = make(ctx)
        found, st = pool.run(task, items, timeout=timeout)
        _collect(res, task, items, found)
        res.traces = st['done']
        res.wall = time.time() - t0
        return res
    run.suite_name = name
    return run


Q['api'] = task_suite('api', 'tasks_enc:api', lambda ctx: [{}])


# --------------------------------------------------------------- several sessions at once
POOLMODELS = [dict(Cfgs='CfgBuf', Batches='B3', MaxW=1, MaxT=2, Lasts='BothLast'),
              dict(Cfgs='CfgTime', Batches='B3', MaxW=1, MaxT=2),
              dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults'),
              dict(Cfgs='CfgA1'),
              dict(Cfgs='CfgMitm', Attack='AtkMitm', Budget=1)]


def multi_suite(name, lens, task, count, timeout=700):
    """All interleavings of Sessions.tla, each filled with behaviours of SaltMC drawn from the seed."""
    def run(ctx):
        t0 = time.time()
        res = Result(name)
        behs = []
        for c in POOLMODELS:
            r = gen.generate(c)
            if r.violation:
                raise pool.HarnessError('the specification itself violates its properties:\n' + r.violation[:3000])
            res.states += r.distinct
            res.transitions += r.states
            behs.append(gen.paths(r, ctx.seed))
        rng = random.Random('multi/%s/%s' % (name, ctx.seed))
        items, sched = [], 0
        for L in lens:
            r = tlc.run('Sessions', tlc.cfg_text(dict(Lens=L), invariants=['TypeOK', 'Gen'], properties=['NonInterference']))
            if r.violation:
                raise pool.HarnessError(r.violation[:2000])
            res.states += r.distinct
            res.transitions += r.states
            ls = sorted(r.lines)
            sched += len(ls)
            if len(ls) > count:
                ls = rng.sample(ls, count)
            for i in range(max(count, len(ls))):
                o = json.loads(ls[i % len(ls)][4:])
                k = max(o['o'])
                items.append(dict(beh=o, behs=[rng.choice(rng.choice(behs)) for _ in range(k)], seed='%s/%s/%s/%d' % (ctx.seed, name, L, i)))
        found, st = pool.run(task, items, timeout=timeout)
        _collect(res, task, items, found)
        res.traces = st['done']
        res.note = {'interleavings': sched, 'runs': len(items), 'behaviours_to_draw_from': sum(map(len, behs)), 'task': task}
        it = items[rng.randrange(len(items))]
        res.samples.append({'suite': name, 'order': it['beh']['o'], 'sessions': [[short(json.loads(s)) for s in b['steps'][:6]] for b in it['behs']]})
        res.wall = time.time() - t0
        return res
    run.suite_name = name
    return run


MS = multi_suite
Q['multi'] = MS('multi', ['L55', 'L333', 'L2222'], 'tasks_multi:interleaved', 1700)
Q['threads'] = MS('threads', ['L2222', 'L333'], 'tasks_multi:threads', 250)
T['multi'] = MS('multi', ['L66', 'L444', 'L2222'], 'tasks_multi:interleaved', 30000)
T['threads'] = MS('threads', ['L2222', 'L333'], 'tasks_multi:threads', 4000)


# --------------------------------------------------------------- crypto back ends
LI = ['OnlyInstalled', 'NeverInferior', 'Usable', 'Gen']
Q['select'] = play_suite('select', 'LibSelect', [dict(MaxGet=2)], 'tasks_lib:select', None, LI)
T['select'] = play_suite('select', 'LibSelect', [dict(MaxGet=3)], 'tasks_lib:select', None, LI)
Q['crypto'] = TS('crypto', 'CryptoApi', 'tasks_lib:crypto', lambda ctx: [dict(n=150) for _ in range(500)] + [dict(n=4500, many=[l, r]) for l, r in (('native', 0), ('native', 1), ('pynacl', 0), ('tweet', 1))])
PURE = lambda a, b, c, n: lambda ctx: ([dict(n=8, pure='big') for _ in range(c)] + [dict(n=n, pure='asym') for _ in range(a)] +
                                       [dict(n=6 * n, pure='sym') for _ in range(b)])
Q['pure'] = TS('pure', 'CryptoApi', 'tasks_lib:crypto', PURE(40, 32, 16, 24))
T['pure'] = TS('pure', 'CryptoApi', 'tasks_lib:crypto', PURE(300, 400, 100, 60), timeout=2400)
T['crypto'] = TS('crypto', 'CryptoApi', 'tasks_lib:crypto', lambda ctx: [dict(n=400) for _ in range(1500)] + [dict(n=20000, many=[l, r]) for l in ('native', 'pynacl', 'tweet') for r in (0, 1)])

# --------------------------------------------------------------- the monitor
MI = ['OneEntryEach', 'NoLogNoEntries', 'Gen']
MH = ['async', 'sync', 'mix']
Q['monitor'] = play_suite('monitor', 'Monitor', [dict(Steps=4, MaxBatch=2, HasLog='TRUE'), dict(Steps=3, MaxBatch=3, HasLog='FALSE'), dict(Steps=3, MaxBatch=4, HasLog='TRUE'),
                                                 dict(Steps=250, MaxBatch=12, HasLog='TRUE', simulate=(6, 250))],
                          'tasks_mitm:play', MH, MI, ['LogGrows'])
T['monitor'] = play_suite('monitor5', 'Monitor', [dict(Steps=5, MaxBatch=2, HasLog='TRUE'), dict(Steps=4, MaxBatch=3, HasLog='FALSE'),
                                                   dict(Steps=1500, MaxBatch=12, HasLog='TRUE', simulate=(60, 1500))],
                          'tasks_mitm:play', MH, MI, ['LogGrows'], cap=250000)
MW = [None, None, None] + WAYS[:1]
Q['monses'] = R('monses', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults', Lasts='BothLast'), cap=6000, ways=MW, task='tasks_replay:replay_mon')
Q['monhs'] = R('monhs', dict(Cfgs='CfgAll', Batches='B3', MaxW=1, MaxT=2), cap=6000, ways=MW, task='tasks_replay:replay_mon')
T['monses'] = R('monses', dict(Cfgs='CfgTwo', Batches='B3', MaxW=2, MaxT=2, Faults='AllFaults', Lasts='BothLast'), ways=MW, task='tasks_replay:replay_mon')
T['monhs'] = R('monhs', dict(Cfgs='CfgAtk', Attack='AtkHs', Budget=1), ways=MW, task='tasks_replay:replay_mon')


# --------------------------------------------------------------- client/server pairs and the examples
def _pairs(groups, cap, secs):
    """TLC explores every schedule of the groups on the model and prints the groups; (up to cap of) each are run."""
    def make(ctx):
        r0 = random.Random('pair/%s' % ctx.seed)
        items, st, tr = [], 0, 0
        for g in groups:
            r = tlc.run('Pair', tlc.cfg_text(dict(Kinds='Both', Groups=g), invariants=['Own', 'Serial', 'Outcome', 'Gen'], properties=['Termination']), workers=4, timeout=600)
            if r.violation:
                raise pool.HarnessError('the specification Pair violates its properties:\n' + r.violation[:3000])
            st, tr = st + r.distinct, tr + r.states
            ls = sorted(set(r.lines))
            for n, l in enumerate(r0.sample(ls, cap) if len(ls) > cap else ls):
                items.append(dict(json.loads(l[4:]), jit=n % 3 == 0))
        # many clients (their schedules are not enumerated, their histories are checked)
        for kind, n in (('mp', 75), ('aio', 8)):
            items.append(dict(kind=kind, grp=[[r0.choice('eezb')] if r0.random() < .9 else ['e', r0.choice('exqk')] for _ in range(n)], jit=True))
        # clients that take their time: the first one is silent for a while before its first or its second message
        items[:0] = [dict(kind=kind, grp=[['e', 'e'], ['b']], jit=False, pause=[k, secs]) for kind in ('mp', 'aio') for k in (0, 1)]
        make.tlc = (st, tr)
        return items
    return make


Q['pair'] = TS('pair', 'PairTrace', 'tasks_pair:pair', _pairs(['Small', 'Three'], 80, 12), consts=dict(Kinds='NoKinds', Groups='NoGroups'), spec='TSpec')
T['pair'] = TS('pair', 'PairTrace', 'tasks_pair:pair', _pairs(['Small', 'Three', 'Four', 'Deep'], 500, 33), consts=dict(Kinds='NoKinds', Groups='NoGroups'), spec='TSpec', timeout=2400)
Q['examples'] = play_suite('examples', 'Examples', [{}], 'tasks_pair:example', ['1', '1a', '2', '2a', '3', '3a'], [])
Q['echo'] = task_suite('echo', 'tasks_pair:echo', lambda ctx: [dict(mod='saltchannel.dev.run_session', n=10), dict(mod='saltchannel.dev.run_session_a', n=3)])
