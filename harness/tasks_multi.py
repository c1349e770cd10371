"""Several real sessions in one process, interleaved or in parallel threads; each is compared with its own behaviour."""
import asyncio
import json
import random
import sys
import threading
import time

import drive
import drive_sync
from drive import Hang, Replay, Watchdog


def share(rs, rnd):
    """Lets sessions share some of their keys (one server identity, a reused key on one side, ...)."""
    for r in rs[1:]:
        if rnd.random() < .6:
            src = rnd.choice(rs).conc
            if src is r.conc:
                continue
            for k in rnd.choice([['sS', 'xS'], ['sS', 'sE'], ['cS', 'cE'], ['sE'], ['cE'], ['sS', 'cS'], ['cO', 'sO', 'xE']]):
                if k in src.enc:
                    r.conc.enc[k] = src.enc[k]
                else:
                    r.conc.sig[k] = src.sig[k]


def tag(bad, what):
    return [[i, f if f == 'hang' else 'multi.' + f, '(%s) %s' % (what, t)] for i, f, t in bad]


def interleaved(loop, item):
    rnd = random.Random('multi/' + item['seed'])
    rs = [Replay(b['cfg'], [json.loads(s) for s in b['steps']], '%s/%d' % (item['seed'], n)) for n, b in enumerate(item['behs'])]
    share(rs, rnd)
    order = item['beh']['o']
    n = [order.count(k + 1) for k in range(len(rs))]

    async def go():
        at = [0] * len(rs)
        live = [None] * len(rs)
        pos = [0] * len(rs)
        try:
            for k in order:
                k -= 1
                r = rs[k]
                if live[k] is None:
                    live[k] = await r.setup()
                at[k] += 1
                upto = len(r.steps) * at[k] // n[k]
                while live[k] and pos[k] < upto:
                    try:
                        await r.step(pos[k], r.steps[pos[k]])
                    except Hang as h:
                        r.diff(pos[k], 'hang', str(h))
                        r.stopped = True
                    pos[k] += 1
                    if r.stopped:
                        live[k] = False
        finally:
            for k, r in enumerate(rs):
                if live[k] is not None:
                    await r.teardown()
    bad = []
    try:
        with Watchdog(120):
            loop.run_until_complete(go())
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    for k, r in enumerate(rs):
        bad += tag(r.bad, 'session %d of %d interleaved' % (k + 1, len(rs)))
    return bad


class PlainSync(drive_sync.SyncReplay):
    def diff(self, i, facet, text):
        Replay.diff(self, i, facet, text)


def threads(loop, item):
    rnd = random.Random('multi/' + item['seed'])
    rs = []
    for n, b in enumerate(item['behs']):
        steps = [json.loads(s) for s in b['steps']]
        seed = '%s/%d' % (item['seed'], n)
        if n % 3 == 2:
            rs.append(Replay(b['cfg'], steps, seed))         # asynchronous, on a loop of its own thread
        else:
            rs.append(PlainSync(b['cfg'], steps, seed, rnd.choice([['block/noloop'] * 2, ['aloop/noloop', 'block/loop'], ['aloop/explicit'] * 2])))
    share(rs, rnd)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    bad = []
    try:
        def body(r):
            l = asyncio.new_event_loop()
            asyncio.set_event_loop(l)
            try:
                gate.wait(60)
                l.run_until_complete(r.run())
            except BaseException as x:
                r.diff(-1, 'unexpected', 'in a thread: %s: %s' % (type(x).__name__, x))
            finally:
                l.close()
        gate = threading.Barrier(len(rs))
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in rs]
        for t in ts:
            t.start()
        t0 = time.time()
        for t in ts:
            t.join(max(1, 120 - (time.time() - t0)))
            if t.is_alive():
                bad.append([-1, 'hang', 'a session in a thread does not finish'])
    finally:
        sys.setswitchinterval(old)
    for k, r in enumerate(rs):
        bad += tag(r.bad, 'session %d of %d in parallel threads' % (k + 1, len(rs)))
    return bad
