"""Plays behaviours of spec/Monitor.tla to a real MitmChannel over a scripted channel."""
import asyncio
import logging
import random

import drive
from drive import Hang, Watchdog
from saltchannel.channel import ByteChannel
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import BadPeer, ComException


class Cap(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        self.got.append(rec.getMessage())


class Below(ByteChannel):
    def __init__(self, loop):
        super().__init__(loop=loop)
        self.calls, self.script, self.closed = [], [], 0
        self.gate = None

    def take(self, call):
        self.calls.append(call)
        r = self.script.pop(0)
        if isinstance(r, BaseException):
            raise r
        return r

    async def read(self):
        if self.gate is not None:
            await self.gate
        return self.take(('read',))

    async def write(self, msg, *args, is_last=False):
        await asyncio.sleep(0)
        return self.take(('write', (msg,) + args, is_last))

    def read_sync(self):
        return self.take(('read',))

    def write_sync(self, msg, *args, is_last=False):
        return self.take(('write', (msg,) + args, is_last))

    def close(self):
        self.closed += 1


EXCS = [lambda: ComException('x'), lambda: BadPeer('y'), lambda: ConnectionResetError('z'), lambda: ValueError('v'), lambda: asyncio.IncompleteReadError(b'a', 3)]


def play(loop, item):
    rnd = random.Random('mitm/' + item['seed'])
    how, beh = item['how'], item['beh']
    bad = []
    size = {}
    data = {}

    def tok(t):
        if t not in data:
            n = rnd.choice([0, 1, 2, 3, 10, 100, 1000, 65536 if len(beh['steps']) < 20 else 5])
            data[t] = rnd.randbytes(n)
        return data[t]
    log, cap = None, Cap()
    if beh['haslog']:
        log = logging.Logger('mitm')
        log.addHandler(cap)
    below = Below(loop)
    m = MitmChannel(below, log=log, loop=loop) if rnd.random() < .5 else MitmChannel(below, log)
    other = MitmChannel(Below(loop), log=None)               # another monitor in the process must not matter

    def diff(i, facet, text):
        bad.append([i, 'mon.' + facet, text])

    def way():
        return how if how != 'mix' else rnd.choice(['async', 'sync'])

    def call(name, *a, **k):
        try:
            if way() == 'async':
                return ('ok', loop.run_until_complete(getattr(m, name)(*a, **k)))
            return ('ok', getattr(m, name + '_sync')(*a, **k))
        except Exception as x:
            return ('exc', x)
    cr = cw = 0
    for i, s in enumerate(beh['steps']):
        below.calls.clear()
        cap.got.clear()
        op = s['op']
        if op == 'write':
            ms = [tok(t) for t in s['toks']]
            exc = None if s['ok'] else rnd.choice(EXCS)()
            below.script[:] = [exc]
            kw = {'is_last': True} if s['last'] else rnd.choice([{}, {'is_last': False}])
            r = call('write', *ms, **kw)
            if below.calls != [('write', tuple(ms), s['last'])]:
                diff(i, 'below', 'write of %d messages, is_last=%s; the channel below saw %s' % (len(ms), s['last'], str(below.calls)[:300]))
            if (s['ok'] and r != ('ok', None)) or (not s['ok'] and r[1] is not exc):
                diff(i, 'result', 'write below gave %r, the user got %r' % (exc, r))
        elif op == 'read':
            d = tok(s['toks'][0])
            x = d if s['ok'] else rnd.choice(EXCS)()
            below.script[:] = [x]
            r = call('read')
            if below.calls != [('read',)]:
                diff(i, 'below', 'read; the channel below saw %s' % str(below.calls)[:300])
            if (s['ok'] and r != ('ok', d)) or (not s['ok'] and r[1] is not x):
                diff(i, 'result', 'read below gave %r, the user got %s' % (x, str(r)[:200]))
        elif op == 'around':
            w, d = tok(s['toks'][0]), tok(s['toks'][1])

            async def go():
                below.gate = loop.create_future()
                t = asyncio.ensure_future(m.read())
                await asyncio.sleep(0)
                below.script[:] = [None]
                await m.write(w, **drive.flag(s['last'], i % 2))
                below.script[:] = [d]
                below.gate.set_result(None)
                try:
                    return await t
                finally:
                    below.gate = None
            try:
                r = loop.run_until_complete(go())
                if r != d:
                    diff(i, 'result', 'the waiting read got %r' % (r,))
            except Exception as x:
                diff(i, 'result', 'write during a waiting read: %r' % (x,))
            if below.calls != [('write', (w,), s['last']), ('read',)]:
                diff(i, 'below', 'the channel below saw %s' % str(below.calls)[:300])
        elif op == 'toggle':
            m.log_buffering = s['last']
        elif op == 'flush':
            m.flush_log_buffer()
        cr += sum(len(tok(t)) for t in s['rd'])
        cw += sum(len(tok(t)) for t in s['wr'])
        if (m.counter_read, m.counter_write) != (cr, cw):
            diff(i, 'counter', 'after %s: counters %r, specified %r' % (op, (m.counter_read, m.counter_write), (cr, cw)))
        if len(cap.got) != len(s['log']):
            diff(i, 'log', '%s: %d new log entries, specified %d' % (op, len(cap.got), len(s['log'])))
        else:
            for e, g in zip(s['log'], cap.got):
                d = tok(e['tok'])
                kinds = [k for k in ('WRITE_WITH_PREVIOUS', 'WRITE', 'READ') if k in g][:1]
                if kinds != [e['kind']] or (d and d.hex() not in g) or str(len(d)) not in g or (not d and "b''" not in g):
                    diff(i, 'log', 'after %s: log entry %s..., specified %s of %d bytes' % (op, g[:160], e['kind'], len(d)))
                    break
        if bad:
            return bad
    if (other.counter_read, other.counter_write) != (0, 0):
        diff(len(beh['steps']), 'counter', 'another monitor was touched')
    m.close()
    if below.closed != 1:
        diff(len(beh['steps']), 'below', 'close() closed the channel below %d times' % below.closed)
    return bad
