"""Records histories of real message channels for spec/Fifo.tla."""
import asyncio
import json
import random
import socket
import struct
import threading
import time

import drive
from drive import Hang, Watchdog, exc_name
from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.tunnel import Tunnel, TunnelMP
from saltchannel.dev.client_server_a import open_saltchannel_connection, start_saltchannel_server


class Log:
    def __init__(self, seed):
        self.rnd = random.Random('fifo/' + seed)
        self.ev = []
        self.lock = threading.RLock()
        self.ser = {}

    def add(self, **v):
        with self.lock:
            self.ev.append(v)
            return len(self.ev)

    def new(self, sizes, big):
        r = self.rnd
        out = []
        for _ in range(sizes):
            n = r.choice([0, 1, 2, 3, 4, 5, 100, 255, 256, 1000, 65535, 65536, r.randrange(3000)] + ([1 << 20, 300000, 4 << 20] if big else []))
            b = r.randbytes(n) if n < 5000 else r.randbytes(1000) * (n // 1000) + r.randbytes(n % 1000)
            with self.lock:
                self.ser.setdefault(b, len(self.ser) + 1)
            out.append(b)
        return out

    def id(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview)):
            return [-1, -1]
        b = bytes(b)
        with self.lock:
            return [len(b), self.ser.get(b, -1)]

    def wr(self, e, ms):
        return self.add(k='wr', e=e, ids=[self.id(m) for m in ms])

    def rd(self, e, r, m=None):
        self.add(k='rd', e=e, r=r, id=self.id(m) if r == 'msg' else [0, 0])


def batches(log, n, big):
    return [log.new(log.rnd.choice([1, 1, 1, 2, 3, 7]), big and log.rnd.random() < .1) for _ in range(n)]


# -------------------------------------------------------------- threads and blocking channels
def sync_end(log, e, ch, out, expect, close):
    rnd = random.Random('%d' % len(out))

    def writer():
        for ms in out:
            log.wr(e, ms)
            try:
                bs, wipe = drive.lend(rnd, ms)
                ch.write_sync(bs[0], *bs[1:], **drive.flag(False, len(bs) % 2))
                wipe()
                log.add(k='wre', e=e, r='ok')
            except Exception as x:
                log.add(k='wre', e=e, r=exc_name(x))
                return

    def reader():
        for _ in range(expect):
            try:
                m = ch.read_sync()
                log.rd(e, 'msg', m)
            except Exception as x:
                log.rd(e, exc_name(x))
                return
    return [threading.Thread(target=t, daemon=True) for t in (writer, reader)]


def join(ts, limit):
    t0 = time.time()
    for t in ts:
        t.join(max(0.1, limit - (time.time() - t0)))
        if t.is_alive():
            raise Hang('a read or write does not finish')


def wrap(ch, item, e, log):
    if item.get('mitm'):
        return MitmChannel(ch)
    return ch


def rec_sock(loop, item, log):
    if item['how'] == 'pair':
        a, b = socket.socketpair()
    else:
        l = socket.socket()
        l.bind(('127.0.0.1', 0))
        l.listen(1)
        a = socket.create_connection(l.getsockname())
        b, _ = l.accept()
        l.close()
    for s in (a, b):
        if item['how'] == 'pair' and log.rnd.random() < .5:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 8192)      # (small TCP buffers are merely slow)
    ch = {'c': wrap(SocketChannel(a), item, 'c', log), 's': wrap(SocketChannel(b), item, 's', log)}
    out = {e: batches(log, item['n'], item.get('big')) for e in 'cs'}
    tot = {e: sum(len(b) for b in out[e]) for e in 'cs'}
    ts = sync_end(log, 'c', ch['c'], out['c'], tot['s'], False) + sync_end(log, 's', ch['s'], out['s'], tot['c'], False)
    for t in ts:
        t.start()
    join(ts, 100)
    finish_sock(log, a, b, ch)


def rec_pipe(loop, item, log):
    """The process tunnel with messages larger than a pipe holds: both ends read and write at the same time."""
    t = TunnelMP()
    ch = {'c': wrap(t.channel1, item, 'c', log), 's': wrap(t.channel2, item, 's', log)}
    out = {e: batches(log, item['n'], True) + [log.new(1, False), [log.rnd.randbytes(1000) * log.rnd.choice([1100, 2500, 5000])]] for e in 'cs'}
    for e in 'cs':
        log.ser.setdefault(out[e][-1][0], len(log.ser) + 1)
    tot = {e: sum(len(b) for b in out[e]) for e in 'cs'}
    ts = sync_end(log, 'c', ch['c'], out['c'], tot['s'], False) + sync_end(log, 's', ch['s'], out['s'], tot['c'], False)
    for x in ts:
        x.start()
    join(ts, 100)


def finish_sock(log, a, b, ch):
    """one side stops in the middle of a message"""
    part = log.rnd.choice([b'', b'\x05', b'\x05\x00\x00', b'\x05\x00\x00\x00', b'\x05\x00\x00\x00abcd', b'\xff\xff\x00\x00' + b'z' * 3000])
    a.sendall(part)
    log.add(k='cls', e='c')
    a.shutdown(socket.SHUT_WR)
    for _ in range(2):
        try:
            m = ch['s'].read_sync()
            log.rd('s', 'msg', m)
        except Exception as x:
            log.rd('s', exc_name(x))
    a.close()
    b.close()


def rec_tunnel(loop, item, log):
    t = Tunnel() if item['how'] == 'tunnel' else TunnelMP()
    ch = {'c': wrap(t.channel1, item, 'c', log), 's': wrap(t.channel2, item, 's', log)}
    pend = {'c': 0, 's': 0}

    def call(e, name, *a, **k):
        if log.rnd.random() < .5:
            return getattr(ch[e], name + '_sync')(*a, **k)
        return loop.run_until_complete(getattr(ch[e], name)(*a, **k))
    big = 2000 if item['how'] == 'tunnelmp' else None
    left = item['n']
    for e, o in ('cs', 'sc') if item.get('burst') else ():       # much is written before anything is read
        ms = [log.new(1, False)[0][:40] for _ in range(item['burst'])]
        while ms:
            k = log.rnd.choice([1, 30, 700])
            part, ms = ms[:k], ms[k:]
            for m in part:
                log.ser.setdefault(m, len(log.ser) + 1)
            log.wr(e, part)
            call(e, 'write', *part)
            log.add(k='wre', e=e, r='ok')
            pend[o] += len(part)
    while left or pend['c'] or pend['s']:
        e = log.rnd.choice('cs')
        o = 's' if e == 'c' else 'c'
        if left and log.rnd.random() < .6 and (big is None or pend[o] < 8):
            left -= 1
            ms = log.new(log.rnd.choice([1, 1, 2, 3, 6]), False)
            if big:
                ms = [m[:big] for m in ms]
                for m in ms:
                    log.ser.setdefault(m, len(log.ser) + 1)
            log.wr(e, ms)
            pend[o] += len(ms)
            try:
                bs, wipe = drive.lend(log.rnd, ms)
                call(e, 'write', *bs, **drive.flag(log.rnd.random() < .3, log.rnd.random() < .5))
                wipe()
                log.add(k='wre', e=e, r='ok')
            except Exception as x:
                log.add(k='wre', e=e, r=exc_name(x))
                return
        elif pend[e]:
            pend[e] -= 1
            try:
                log.rd(e, 'msg', call(e, 'read'))
            except Exception as x:
                log.rd(e, exc_name(x))
                return


# -------------------------------------------------------------- asyncio streams
async def rec_async(item, log):
    got = asyncio.get_running_loop().create_future()

    async def on(reader, writer):
        got.set_result((reader, writer))
    srv = await start_saltchannel_server(on, '127.0.0.1', 0)
    port = srv.sockets[0].getsockname()[1]
    r1, w1 = await open_saltchannel_connection('127.0.0.1', port)
    r2, w2 = await got
    ch = {'c': wrap(AsyncioChannel(r1, w1), item, 'c', log), 's': wrap(AsyncioChannel(r2, w2), item, 's', log)}
    out = {e: batches(log, item['n'], item.get('big')) for e in 'cs'}
    tot = {e: sum(len(b) for b in out[e]) for e in 'cs'}

    async def writer(e):
        for ms in out[e]:
            log.wr(e, ms)
            try:
                bs, wipe = drive.lend(log.rnd, ms)
                await ch[e].write(bs[0], *bs[1:])
                wipe()
                log.add(k='wre', e=e, r='ok')
            except Exception as x:
                log.add(k='wre', e=e, r=exc_name(x))
                return

    async def reader(e, n):
        for _ in range(n):
            try:
                log.rd(e, 'msg', await ch[e].read())
            except Exception as x:
                log.rd(e, exc_name(x))
                return
    await asyncio.wait_for(asyncio.gather(writer('c'), writer('s'), reader('c', tot['s']), reader('s', tot['c'])), 100)
    part = log.rnd.choice([b'', b'\x05', b'\x05\x00\x00\x00', b'\x05\x00\x00\x00abcd'])
    log.add(k='cls', e='c')
    w1.write(part)
    w1.close()
    for _ in range(2):
        try:
            log.rd('s', 'msg', await ch['s'].read())
        except Exception as x:
            log.rd('s', exc_name(x))
    w2.close()
    srv.close()


async def rec_raw(item, log):
    """A raw peer dribbles frames into an asyncio stream and drops the connection."""
    got = asyncio.get_running_loop().create_future()

    async def on(reader, writer):
        got.set_result((reader, writer))
    srv = await start_saltchannel_server(on, '127.0.0.1', 0)
    port = srv.sockets[0].getsockname()[1]
    s = socket.create_connection(('127.0.0.1', port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    r2, w2 = await got
    ch = AsyncioChannel(r2, w2)
    ms = [m[:70000] for m in log.new(item['n'], False)]
    for m in ms:
        log.ser.setdefault(m, len(log.ser) + 1)
    stream = b''.join(struct.pack('<i', len(m)) + m for m in ms)
    log.wr('c', ms)

    async def feed():
        p = 0
        while p < len(stream):
            k = log.rnd.choice([1, 2, 3, 4, 5, 7, 100, 5000])
            s.sendall(stream[p:p + k])
            p += k
            await asyncio.sleep(0.0002 if log.rnd.random() < .2 else 0)
        s.sendall(log.rnd.choice([b'', b'\x01\x00', b'\x09\x00\x00\x00xyz', b'\xff\xff\xff\xff', b'\x00\x00\x00\x80abc']))
        log.add(k='cls', e='c')
        if log.rnd.random() < .4:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            s.shutdown(socket.SHUT_WR)
            for _ in range(400):
                if sum(1 for v in log.ev if v['k'] == 'rd') >= len(ms):
                    break
                await asyncio.sleep(0.005)
        s.close()
    t = asyncio.ensure_future(feed())
    for _ in range(len(ms) + 1):
        try:
            log.rd('s', 'msg', await asyncio.wait_for(ch.read(), 60))
        except asyncio.TimeoutError:
            raise Hang('read does not finish')
        except Exception as x:
            log.rd('s', exc_name(x))
            break
    await t
    w2.close()
    srv.close()


def record(loop, item):
    log = Log(item['seed'])
    bad = []
    try:
        with Watchdog(120):
            if item['how'] in ('pair', 'tcp'):
                rec_sock(loop, item, log)
            elif item['how'] == 'pipe':
                rec_pipe(loop, item, log)
            elif item['how'] in ('tunnel', 'tunnelmp'):
                rec_tunnel(loop, item, log)
            elif item['how'] == 'async':
                loop.run_until_complete(rec_async(item, log))
            else:
                loop.run_until_complete(rec_raw(item, log))
    except (Hang, asyncio.TimeoutError) as h:
        bad.append([-1, 'hang', 'a read or write does not finish: %s' % h])
    if not bad:
        with open(item['out'], 'w') as h:
            json.dump(dict(ev=log.ev), h)
    return bad
