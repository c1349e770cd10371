"""Records histories of real sessions for spec/SaltTrace.tla (and Pair/Conc suites)."""
import asyncio
import json
import random
import struct

from nacl import bindings as nb

import drive
from concrete import Concrete, nonce, special
from drive import End, Hang, TestChannel, TransportDown, down, down_seed, flag, lend, Watchdog, exc_name


class TraceChannel(TestChannel):
    """Transport that records what is handed to it, can suspend, fail or lose writes."""

    def __init__(self, rec, side):
        super().__init__()
        self.rec, self.side = rec, side
        self.on = False
        self.plan = []            # behaviour of coming transport writes
        self.gates = []           # suspended writes
        self.taken = []

    async def read(self):
        m = await super_read(self)
        self.taken.append(self.rec.prov.get(id(m)))
        if isinstance(m, BaseException):
            raise m
        return m

    async def write(self, msg, *args, is_last=False):
        if not self.on:
            return await super().write(msg, *args, is_last=is_last)
        rec = self.rec
        msgs = [bytes(m) for m in (msg,) + args]
        ev = rec.tx(self.side, msgs, bool(is_last))
        mode = self.plan.pop(0) if self.plan else ('ok',)
        if mode[0] != 'lost':
            rec.fly(self.side, ev, msgs)
        r = 'fail'
        try:
            if mode[0] == 'yield':
                for _ in range(mode[1]):
                    await asyncio.sleep(0)
            elif mode[0] == 'gate':
                f = asyncio.get_running_loop().create_future()
                self.gates.append(f)
                await f
            elif mode[0] in ('lost', 'sent'):
                raise down('write failed')
            r = 'ok'
        except asyncio.CancelledError:
            r = 'cancel'
            raise
        finally:
            rec.log(k='txe', e=self.side, tx=ev, r=r)


async def super_read(ch):
    if not ch.inbox:
        ch.waiter = asyncio.get_running_loop().create_future()
        try:
            await ch.waiter
        finally:
            ch.waiter = None
    return ch.inbox.pop(0)


OTHER = {'c': 's', 's': 'c'}


class Rec:
    def __init__(self, seed, cfg):
        self.rnd = random.Random('trace/%s' % seed)
        down_seed(seed)
        self.conc = Concrete(seed)
        self.cfg = cfg
        self.ev = []
        self.ch = {e: TraceChannel(self, e) for e in 'cs'}
        self.ends = {e: End(e, cfg, self.conc, chan=self.ch[e]) for e in 'cs'}
        self.flight = {'c': [], 's': []}      # genuine packets not yet delivered to that side: (bytes, ev, j)
        self.sent = {'c': [], 's': []}        # all packets that side handed over
        self.ser = {'c': {b'': ('e', 0)}, 's': {b'': ('e', 0)}}
        self.nser = {'c': 0, 's': 0}
        self.prov = {}
        self.keep = []
        self.tasks = []
        self.reads = {'c': None, 's': None}
        self.base = 0
        self.k = self.conc.shared(['cE', 'sE'])
        self.hint = {}

    def log(self, **v):
        self.ev.append(v)
        return len(self.ev)

    async def handshake(self):
        c, s = self.ends['c'], self.ends['s']
        c.set_tick(2)
        s.set_tick(2)
        s.begin('handshake')
        c.begin('handshake')
        for _ in range(20):
            for a in (c, s):
                await a.settle()
            moved = False
            for a, b in ((c, s), (s, c)):
                for ms, _l in a.ch.writes:
                    for m in ms:
                        b.ch.feed(m)
                        moved = True
                a.ch.writes.clear()
            if not moved:
                break
        if c.outcome()[0] != 'ret':
            return 'client handshake: %r' % (c.outcome(),)
        b4 = self.cfg['b4']
        if (s.outcome()[0] == 'ret') == b4 or (s.outcome()[0] not in ('ret', 'wait')):
            return 'server handshake: %r' % (s.outcome(),)
        self.st = {'c': dict(wn=1 if b4 else 3, rn=4, bm4=b4), 's': dict(wn=4, rn=1 if b4 else 3, bm4=False)}
        for a in (c, s):
            a.ch.taken.clear()
        for e in 'cs':
            self.hint[e] = self.st[e]['wn']
            self.ch[e].on = True
        return None

    # ---- abstraction of what the session hands over
    def tx(self, e, msgs, last):
        pk = []
        for m in msgs:
            pk.append(self.abstract(e, m))
        end = self.ends[e]
        return self.log(k='tx', e=e, pk=pk, last=last, now=str(end.keeper.now))

    def abstract(self, e, m):
        bad = dict(n=-1, last=False, t='?', time='', ds=[])
        if len(m) < 18 or m[0] != 6 or m[1] & 0x7f:
            return bad
        h = self.hint[e]
        clear = None
        for n in [h] + [x for x in range(max(0, h - 60), h + 60) if x != h] + list(range(0, 20)):
            try:
                clear = nb.crypto_box_open_afternm(m[2:], nonce(n + self.base), self.k)
                break
            except Exception:
                continue
        if clear is None or len(clear) < 6 or clear[1] != 0:
            return bad
        self.hint[e] = n + 2
        p = dict(n=n, last=m[1] == 0x80, t='?', time=str(struct.unpack('<I', clear[2:6])[0]), ds=[])
        if clear[0] == 4 and len(clear) == 102:
            p['t'] = 'M4'
        elif clear[0] == 5:
            p['t'] = 'APP'
            p['ds'] = [self.known(e, clear[6:])]
        elif clear[0] == 11 and len(clear) >= 8:
            cnt = struct.unpack('<H', clear[6:8])[0]
            o, ds = 8, []
            for _ in range(cnt):
                if o + 2 > len(clear):
                    return p
                l = struct.unpack('<H', clear[o:o + 2])[0]
                ds.append(self.known(e, clear[o + 2:o + 2 + l]))
                o += 2 + l
            if o == len(clear):
                p['t'] = 'MUL'
                p['ds'] = ds
        return p

    def known(self, e, b):
        return list(self.ser[e].get(bytes(b), ('?', 0)))

    def fresh(self, e, cls):
        """A new message of the class for side e -> bytes"""
        r = self.rnd
        if cls == 'e':
            return b''
        if cls == 'm':
            n = 65535
        elif cls == 'L':
            n = r.choice([65536, 65537, 70000, 131072])
        elif isinstance(cls, int):
            n = cls
        else:
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 100, 255, 256, 257, 1000, r.randrange(1, 300)])
        self.nser[e] += 1
        for _ in range(50):
            b = r.randbytes(n) if n else b''
            if b not in self.ser[e]:
                break
            n += 1
        c = 'e' if n == 0 else 'L' if n > 65535 else 'm' if n == 65535 else 'a'
        self.ser[e][b] = (c, self.nser[e] if n else 0)
        return b

    def fly(self, e, ev, msgs):
        for j, m in enumerate(msgs):
            self.flight[OTHER[e]].append((m, ev, j + 1))
            self.sent[e].append((m, ev, j + 1))

    # ---- operations
    async def _write(self, e, msgs, last):
        end = self.ends[e]
        cid = self.log(k='call', e=e, id=0, ds=[self.known(e, m) for m in msgs], last=last)
        self.ev[cid - 1]['id'] = cid
        msgs, wipe = lend(self.rnd, msgs, .1)
        try:
            try:
                v = await end.s.app_channel.write(*msgs, **flag(last, len(msgs) % 2))
            finally:
                wipe()
            r = 'ret' if v is None else 'value %r' % (v,)
        except asyncio.CancelledError:
            r = 'cancel'
        except TransportDown:
            r = 'Com'
        except Exception as x:
            r = 'raised ' + exc_name(x)
        self.log(k='end', e=e, id=cid, r=r)

    def start_write(self, e, msgs, last):
        t = asyncio.ensure_future(self._write(e, msgs, last))
        self.tasks.append((e, t))
        return t

    async def write(self, e, msgs, last=False):
        await self._write(e, msgs, last)

    async def _read(self, e):
        ch, end = self.ch[e], self.ends[e]
        ch.taken.clear()
        d, last = ['?', 0], False
        try:
            v = await end.s.app_channel.read()
            r = 'data'
            d = self.known(OTHER[e], v) if isinstance(v, (bytes, bytearray)) else ['?', 0]
            last = bool(end.s.app_channel.last)
        except asyncio.CancelledError:
            r = 'cancel'
        except Exception as x:
            r = exc_name(x)
        if len(ch.taken) > 1:
            r = 'took %d messages' % len(ch.taken)
        m = ch.taken[0] if ch.taken else None
        self.log(k='rd', e=e, m=m or dict(x='none', ev=0, j=0, fl=False), r=r, d=d, last=last)

    async def finish_hs(self):
        """With a buffered M4 the server's handshake completes only on the client's first write."""
        s = self.ends['s']
        if s.op == 'handshake' and not s.task.done() and self.flight['s']:
            m, ev, j = self.flight['s'].pop(0)
            s.ch.feed(m)
            await s.settle()
            s.ch.taken.clear()
            # the server has consumed one packet
            return s.outcome()[0] == 'ret'
        return True

    def feed(self, e, m, ev, j, x='ok', fl=False):
        if isinstance(m, bytes):
            m = bytes(bytearray(m))      # a fresh object
        self.prov[id(m)] = dict(x=x, ev=ev, j=j, fl=fl)
        self.keep.append(m)
        self.ch[e].feed(m)

    async def settle(self, n=6):
        for _ in range(n):
            await asyncio.sleep(0)

    async def read(self, e):
        """Complete one read on e (whose input is already fed, or whose queue is not empty)."""
        t = self.reads[e] or asyncio.ensure_future(self._read(e))
        self.reads[e] = None
        for i in range(3000):
            if t.done():
                break
            if self.ch[e].waiting and not self.ch[e].inbox:
                if i > 50:
                    self.reads[e] = t
                    return False
            await asyncio.sleep(0)
        else:
            raise Hang('read did not finish')
        return True

    async def close(self):
        for _, t in self.tasks:
            if not t.done():
                t.cancel()
        for e in 'cs':
            if self.reads[e] and not self.reads[e].done():
                self.reads[e].cancel()
        await self.settle(20)
        for e in self.ends.values():
            await e.kill()

    def trace(self):
        return dict(c=self.st['c'], s=self.st['s'], ev=self.ev)


BASE = dict(kind='v2', want='none', b2=False, b4=False, ct=True, st=True, chk='rec', rej=['', ''], ident='cS', sident='sS', addr='any', a2='def')


async def pump(rec, e, n=None):
    """Deliver genuine packets to e in order until its flight is empty (or n packets), reading every message."""
    cnt = 0
    while rec.flight[e] and (n is None or cnt < n):
        m, ev, j = rec.flight[e].pop(0)
        rec.feed(e, m, ev, j)
        await rec.read(e)
        cnt += 1
        await drainq(rec, e, rec.ev[-1], ev, j)


async def drainq(rec, e, rd, ev, j):
    if rd['k'] == 'rd' and rd['r'] == 'data':
        for _ in range(len(rec.ev[ev - 1]['pk'][j - 1]['ds']) - 1):
            await rec.read(e)


def mutate(rec, m):
    r = rec.rnd
    k = r.choice(['flip', 'flip', 'flip', 'trunc', 'ext', 'type', 'garbage', 'empty', 'body0'])
    b = bytearray(m)
    if k == 'flip':
        p = r.choice([2, len(b) - 1, r.randrange(2, len(b)), r.randrange(2, min(18, len(b)))])
        b[p] ^= 1 << r.randrange(8)
    elif k == 'trunc':
        b = b[:r.choice([len(b) - 1, 18, 17, 2, 1, max(0, len(b) - 2)])]
        if bytes(b) == m:
            b = b[:-1]
    elif k == 'ext':
        b += r.randbytes(r.choice([1, 2, 16]))
    elif k == 'type':
        b[0] = r.choice([0, 1, 2, 3, 5, 7, 11, 0x86])
    elif k == 'garbage':
        b = bytearray(r.randbytes(r.choice([1, 2, 17, 18, 19, 64, 200])))
    elif k == 'empty':
        b = bytearray()
    elif k == 'body0':
        b = b[:2] + bytes(len(b) - 2)
    return bytes(b)


async def sched(rec, item):
    """A random history: concurrent writes on a transport that suspends, fails, loses; attacks on what is delivered."""
    r = rec.rnd
    P = item['profile']
    n = item.get('n', 60)
    clk = {'c': 10, 's': 10}
    lossy = P == 'faults'
    many = r.random() < .15
    sizes = ['a', 'a', 'a', 'a', 'e', 'a', 'e'] + (['m', 'L'] if r.random() < .3 else [])
    if 'size' in item:
        sizes = [item['size']]
    for step in range(n):
        e = r.choice('cs')
        o = OTHER[e]
        for x in 'cs':
            clk[x] += r.choice([0, 0, 1, 7, 1000])
            rec.ends[x].keeper.now = (clk[x] + rec.conc.tbase[x]) & 0xffffffff
        x = r.random()
        ch = rec.ch[e]
        if x < (.45 if P != 'attack' else .25):
            # one to four writes at the same time
            k = r.choice([1, 1, 2, 2, 3, 4]) if P != 'attack' else 1
            for _ in range(k):
                b = [rec.fresh(e, r.choice(sizes)) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5]))]
                if P == 'conc' and many and r.random() < .08:
                    # a call of very many packets
                    b = [rec.fresh(e, 9) for _ in range(r.choice([20, 40, 70, 130, 300]))]
                    b.insert(r.randrange(len(b)), rec.fresh(e, 65536))
                if r.random() < .12:
                    # the same message several times in a row
                    i = r.randrange(len(b))
                    b[i:i] = [b[i]] * r.choice([1, 1, 2, 3])
                if P == 'attack':
                    ch.plan = [('ok',)]
                else:
                    ch.plan.append(r.choice([('ok',), ('yield', r.randrange(1, 9)), ('yield', 1), ('gate',)] + ([('sent',), ('sent',)] if r.random() < .5 else []) +
                                            ([('lost',)] if lossy and r.random() < .3 and step > n // 2 else [])))
                t = rec.start_write(e, b, r.random() < .15)
                if P != 'attack' and r.random() < .06:
                    t.cancel()          # before it ran at all
                if r.random() < .3:
                    await asyncio.sleep(0)
            await rec.settle(r.choice([1, 2, 12]))
        elif x < .55 and P != 'attack':
            # something happens to a suspended or running write
            live = [t for a, t in rec.tasks if a == e and not t.done()]
            if ch.gates and r.random() < .5:
                f = ch.gates.pop(r.randrange(len(ch.gates)))
                if not f.done():
                    if r.random() < .75:
                        f.set_result(None)
                    else:
                        f.set_exception(down('late failure'))
            elif live:
                r.choice(live).cancel()
            await rec.settle()
        elif x < .60 and rec.reads[e] is None and P != 'attack':
            # a read that waits, maybe abandoned
            await rec.settle(20)
            if not rec.flight[e] and await_empty(rec, e):
                rec.reads[e] = asyncio.ensure_future(rec._read(e))
                await rec.settle()
                if r.random() < .5:
                    rec.reads[e].cancel()
                    await rec.settle()
                    rec.reads[e] = None
        elif x < .80:
            # deliver some genuine packets
            await pump(rec, e, r.choice([1, 1, 2, 5]))
        else:
            # attack
            for _ in range(r.choice([1, 1, 2, 5]) if P != 'attack' else r.choice([1, 2, 4, 12, 40])):
                y = r.random()
                pool_ = rec.sent[o]
                done = [p for p in pool_ if p not in rec.flight[e]] if len(pool_) < 400 else pool_[:100]
                if y < .3 and done:
                    m, ev, j = r.choice(done)          # replay
                    rec.feed(e, m, ev, j)
                elif y < .45 and len(rec.flight[e]) > 1:
                    m, ev, j = r.choice(rec.flight[e][1:])   # out of order
                    rec.feed(e, m, ev, j)
                elif y < .55 and rec.sent[e]:
                    m, ev, j = r.choice(rec.sent[e])   # reflection
                    rec.feed(e, m, 0, 0, x='bad')
                elif y < .62:
                    rec.feed(e, down('lost'), 0, 0, x='eof')
                elif y < .68 and rec.flight[e]:
                    # next genuine packet with its (unauthenticated) last flag inverted
                    m, ev, j = rec.flight[e].pop(0)
                    rec.feed(e, bytes([m[0], m[1] ^ 0x80]) + m[2:], ev, j, fl=True)
                    await rec.read(e)
                    await drainq(rec, e, rec.ev[-1], ev, j)
                    continue
                elif pool_:
                    m, ev, j = r.choice([pool_[-1], r.choice(pool_), rec.flight[e][0] if rec.flight[e] else pool_[0]])
                    b = mutate(rec, m)
                    if b == m:
                        continue
                    rec.feed(e, b, 0, 0, x='bad')
                else:
                    continue
                await rec.read(e)
    # let everything finish
    for e in 'cs':
        rec.ch[e].plan = []
        for f in rec.ch[e].gates:
            if not f.done():
                f.set_result(None)
    await rec.settle(40)
    for e in 'cs':
        await pump(rec, e)
    await rec.settle(5)
    for e, t in rec.tasks:
        if not t.done():
            raise Hang('a write never finished')


def await_empty(rec, e):
    return not rec.ch[e].inbox


async def longrun(rec, item):
    """Many packets in one session: the counter passes item['upto']."""
    r = rec.rnd
    e = item['side']
    rec.ends[e].keeper.now = 4711
    stuck = top = 0
    while rec.hint[e] < item['upto'] and stuck < 6:
        stuck, top = (0, rec.hint[e]) if rec.hint[e] > top else (stuck + 1, top)
        k = r.choice([1, 2, 50, 400])
        if k <= 2:
            b = [rec.fresh(e, 'a') for _ in range(k)]
        else:
            b = [rec.fresh(e, 'L')] + [rec.fresh(e, 8) for _ in range(k)]
        await rec.write(e, b, r.random() < .01)
        await pump(rec, OTHER[e])
        if r.random() < .2 and rec.sent[e]:
            old = rec.sent[e][r.randrange(len(rec.sent[e]))]
            rec.feed(OTHER[e], old[0], old[1], old[2])
            await rec.read(OTHER[e])
        if len(rec.sent[e]) > 3000:
            rec.sent[e] = rec.sent[e][::2]
        if len(rec.keep) > 100:
            rec.keep = []
            rec.prov = {}
    await rec.write(OTHER[e], [rec.fresh(OTHER[e], 'a')])
    await pump(rec, e)


def can_jump(rec):
    """Counters can be preset only if the channel keeps them where they are today and a small preset works."""
    try:
        for e in 'cs':
            ch = rec.ends[e].s.enc_channel
            for nn, v in ((ch.write_nonce, rec.st[e]['wn']), (ch.read_nonce, rec.st[e]['rn'])):
                if type(nn.value) is not int or nn.value != v or bytes(nn) != nonce(v):
                    return False
                nn.value = v + 10
                if bytes(nn) != nonce(v + 10):
                    return False
                nn.value = v
                if bytes(nn) != nonce(v):
                    return False
        return True
    except Exception:
        return False


async def jump(rec, item):
    """The counters of both sides are moved forward together to the neighbourhood of item['base'] (stands for a session
    that has sent that many packets already)."""
    if not can_jump(rec):
        return
    rec.base = item['base']
    for e in 'cs':
        ch = rec.ends[e].s.enc_channel
        ch.write_nonce.value += rec.base
        ch.read_nonce.value += rec.base
    await sched(rec, dict(profile='conc', n=item.get('n', 25)))


KINDS = dict(sched=sched, longrun=longrun, jump=jump)


def start(item, n=0):
    """-> the recorder, the coroutine that runs the history, what went wrong"""
    cfg = dict(BASE)
    cfg.update(item.get('cfg', {}))
    rec = Rec(item['seed'] if not n else '%s/%d' % (item['seed'], n), cfg)
    bad = []

    async def go():
        w = await rec.handshake()
        if w:
            bad.append([-1, 'reject.hs', w])
            return
        try:
            if rec.cfg['b4']:
                rec.ends['c'].keeper.now = 77
                await rec.write('c', [rec.fresh('c', 'a'), rec.fresh('c', 'a')])
                if not await rec.finish_hs():
                    bad.append([-1, 'reject.hs', 'server handshake: %r' % (rec.ends['s'].outcome(),)])
                    return
            await KINDS[item['kind']](rec, item)
        finally:
            await rec.close()
    return rec, go, bad


def finish(rec, out):
    # with M4 buffered the server consumed the identity packet inside its handshake
    t = rec.trace()
    if rec.cfg['b4']:
        t['s'] = dict(t['s'], rn=3)
    with open(out, 'w') as h:
        json.dump(t, h)


def record(loop, item):
    """Runs one recorded history; the trace goes to item['out']."""
    rec, go, bad = start(item)
    try:
        with Watchdog(item.get('limit', 240)):
            loop.run_until_complete(go())
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    if not bad:
        finish(rec, item['out'])
    return bad


def parallel(loop, item):
    """Several histories at the same time, each session in a thread of its own; the traces go to item['out'], item['out'].1, ..."""
    import sys
    import threading
    import time
    bad = []
    rs = []
    special()              # (computed once per process)

    def body(n):
        l = asyncio.new_event_loop()
        asyncio.set_event_loop(l)
        try:
            rec, go, b = start(item, n)
            rs.append((n, rec, b))
            gate.wait(60)
            l.run_until_complete(go())
        except Hang as h:
            bad.append([-1, 'hang', str(h)])
        except BaseException as x:
            bad.append([-1, 'unexpected', 'in a thread: %s: %s' % (type(x).__name__, x)])
        finally:
            l.close()
    k = item['threads']
    gate = threading.Barrier(k)
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(k)]
        for t in ts:
            t.start()
        t0 = time.time()
        for t in ts:
            t.join(max(1, 150 - (time.time() - t0)))
            if t.is_alive():
                bad.append([-1, 'hang', 'a session in a thread does not finish'])
    finally:
        sys.setswitchinterval(old)
    for n, rec, b in rs:
        bad += [[i, 'multi.' + f, '(one of %d sessions in parallel threads) %s' % (k, t)] for i, f, t in b]
    if not bad:
        for n, rec, b in rs:
            finish(rec, item['out'] + ('.%d' % n if n else ''))
    return bad
