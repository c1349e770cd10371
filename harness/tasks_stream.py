"""Plays behaviours of spec/Framing.tla to the real stream transports, and records long histories for spec/Fifo.tla."""
import asyncio
import fcntl
import json
import random
import socket
import struct
import threading
import time

import drive
from drive import Hang, Watchdog, exc_name
from vloop import idle
from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.exceptions import ComException
from saltchannel.dev.client_server_a import (SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter,
                                              open_saltchannel_connection, start_saltchannel_server)

FAMILY = ('Com', 'BadPeer', 'NoSuch', 'Time')
ERRORS = [lambda: ConnectionResetError(104, 'reset'), lambda: TimeoutError('timed out'), lambda: OSError(5, 'I/O error'), lambda: BrokenPipeError(32, 'pipe')]


class Blocked(BaseException):
    """A read waits for bytes that will never come."""


class ScriptSock(socket.socket):
    """A socket whose receiving side hands out scripted segments, whose sending side records.  Between two segments the peer is
    silent for days: a socket on which a time limit has been set runs into it."""

    def __init__(self, segs, stop, rnd):
        a, self._peer = socket.socketpair()
        super().__init__(a.family, a.type, a.proto, fileno=a.detach())
        self._peer.send(b'x')            # always readable for select()
        self.segs = [bytes(s) for s in segs]
        self.stop = stop                 # 'eof' | an exception
        self.rnd = rnd
        self.sent = bytearray()
        self.room = None                 # bytes that can still be sent before the failure
        self.fail = None
        self.limit = None

    def settimeout(self, t):             # the descriptor itself stays as it is
        self.limit = t

    def gettimeout(self):
        return self.limit

    def setblocking(self, flag):
        self.limit = None if flag else 0

    def _take(self, n, peek=False):
        if n < 0:
            raise ValueError('negative buffersize in recv')
        while self.segs and not self.segs[0]:
            self.segs.pop(0)
            if self.limit is not None and self.segs:
                raise BlockingIOError(11, 'would block') if self.limit == 0 else socket.timeout('timed out')
        if n == 0:
            return b''
        if not self.segs:
            if self.stop == 'eof':
                return b''
            raise self.stop
        s = self.segs[0]
        if not peek:
            self.segs[0] = s[n:]
        return s[:n]

    def recv(self, n, flags=0):
        if flags & socket.MSG_WAITALL:       # keeps collecting until it has them or the stream stops
            out = b''
            while len(out) < n:
                p = self._take(n - len(out))
                if not p:
                    break
                out += p
            return out
        return self._take(n, flags & socket.MSG_PEEK)

    def recv_into(self, buf, nbytes=0, flags=0):
        mv = memoryview(buf).cast('B')
        d = self.recv(nbytes or len(mv), flags)
        mv[:len(d)] = d
        return len(d)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), None

    def _push(self, b):
        if self.fail is not None and self.room < len(b):
            self.sent += b[:self.room]
            self.room = 0
            raise self.fail
        if self.fail is not None:
            self.room -= len(b)
        self.sent += b

    def sendall(self, b, flags=0):
        self._push(bytes(b))

    def send(self, b, flags=0):
        b = bytes(b)
        k = min(len(b), self.rnd.choice([1, 2, 3, 5, 8]))
        self._push(b[:k])
        return k

    def sendmsg(self, bufs, *a):
        b = b''.join(bytes(x) for x in bufs)
        return self.send(b)

    def close(self):
        self._peer.close()
        super().close()


class FakeTransport(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.sent = bytearray()
        self.closed = False

    def write(self, b):
        self.sent += bytes(b)

    def writelines(self, bs):
        for b in bs:
            self.sent += bytes(b)

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def get_write_buffer_size(self):
        return 0


async def settle(task):
    for _ in range(200):
        if task.done():
            return
        await asyncio.sleep(0)


def outcome(call):
    try:
        return 'msg', call()
    except Exception as e:
        return exc_name(e), None


def check(bad, i, facet, want, got, val):
    """want: a 'ret' event"""
    if want['k'] == 'msg':
        if got != 'msg':
            bad.append([i, facet + '.lost', 'read raised %s, expected the message %r' % (got, bytes(want['m']))])
            return False
        if not isinstance(val, (bytes, bytearray)) or bytes(val) != bytes(want['m']):
            bad.append([i, facet + '.data', 'read returned %r, expected %r' % (val, bytes(want['m']))])
            return False
        return True
    if got == 'msg':
        bad.append([i, facet + '.invented', 'read returned %r although no complete message was there' % (val,)])
        return False
    if got not in FAMILY:
        bad.append([i, facet + '.exc', 'read raised %s, expected an exception of the ComException family' % got])
        return False
    return True


def split(beh):
    s, p, segs, h = bytes(beh['s']), 0, [], beh['h']
    for v in h:
        if v['a'] == 'seg':
            segs.append(s[p:p + v['n']])
            p += v['n']
    return segs


def play(loop, item):
    bad = []
    try:
        with Watchdog(60):
            _play(loop, item, bad)
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    return bad


def _play(loop, item, bad):
    beh, how = item['beh'], item['how']
    rnd = random.Random('stream/' + item['seed'])
    segs, h = split(beh), beh['h']
    rets = [v for v in h if v['a'] == 'ret']
    stop = next((v['a'] for v in h if v['a'] in ('eof', 'err')), 'eof')
    err = rnd.choice(ERRORS)()
    if how in ('sock', 'socka'):
        neg = rets and rets[-1]['k'] != 'msg' and not any(v['a'] in ('eof', 'err') for v in h)
        sock = ScriptSock(segs, Blocked() if neg else 'eof' if stop == 'eof' else err, rnd)
        ch = SocketChannel(sock)
        rd = ch.read_sync if how == 'sock' else (lambda: loop.run_until_complete(ch.read()))
        wr = ch.write_sync if how == 'sock' else (lambda *a, **k: loop.run_until_complete(ch.write(*a, **k)))
        for i, v in enumerate(rets):
            try:
                got, val = outcome(rd)
            except Blocked:
                bad.append([i, 'stream.read.neg', 'read waits for more bytes after an impossible length'])
                break
            if not check(bad, i, 'stream.read', v, got, val):
                break
        else:
            if not neg and stop == 'eof' and not beh['raw']:
                for k in range(2):
                    got, val = outcome(rd)
                    check(bad, len(rets), 'stream.read', dict(k='Com'), got, val)
        # writing
        for ws in beh['ws']:
            got, val = outcome(lambda: wr(*[rnd.choice([bytes, bytearray])(m) for m in ws], **drive.flag(rnd.random() < .3, rnd.random() < .5)))
            if got != 'msg':
                bad.append([-1, 'stream.write.exc', 'write raised %s' % got])
        total = len(beh['s']) - len(beh['raw'])
        if bytes(sock.sent) != bytes(beh['s'][:total]):
            bad.append([-1, 'stream.write.bytes', 'wrote %r, expected %r' % (bytes(sock.sent), bytes(beh['s'][:total]))])
        # a write whose transport fails
        if beh['ws'] and total:
            sock.fail, sock.room = rnd.choice(ERRORS)(), rnd.randrange(4)
            got, val = outcome(lambda: wr(*[bytes(m) for m in beh['ws'][0]]))
            if got not in FAMILY:
                bad.append([-1, 'stream.write.fail', 'write over a failing socket: %s, expected a ComException' % ('no error' if got == 'msg' else got)])
        sock.close()
        return

    # asyncio stream
    sync = how in ('strs',)
    facet = 'sync.stream' if sync else 'stream'

    async def make():
        reader = SaltChannelStreamReader(loop=asyncio.get_running_loop(), **({'limit': rnd.choice([4, 16])} if rnd.random() < .3 else {}))
        proto = SaltChannelStreamReaderProtocol(reader, loop=asyncio.get_running_loop())
        tr = FakeTransport()
        proto.connection_made(tr)
        writer = SaltChannelStreamWriter(tr, proto, reader, asyncio.get_running_loop())
        return reader, proto, tr, writer, AsyncioChannel(reader, writer)
    reader, proto, tr, writer, ch = loop.run_until_complete(make())

    def arrive(v, segs):
        if v['a'] == 'seg':
            proto.data_received(segs.pop(0))
        elif v['a'] == 'eof':
            if rnd.random() < .5:
                proto.eof_received()
            else:
                proto.connection_lost(None)
        else:
            proto.connection_lost(err)

    if how == 'stre':           # everything has arrived before the first read
        async def go():
            ss = list(segs)
            for v in h:
                if v['a'] != 'ret':
                    arrive(v, ss)
            for i, v in enumerate(rets):
                t = asyncio.ensure_future(ch.read())
                await settle(t)
                if not t.done():
                    bad.append([i, 'hang', 'read does not finish although the stream has ended'])
                    t.cancel()
                    return
                got, val = outcome(t.result)
                if stop == 'err' and got in FAMILY:
                    return           # a stream that has failed need not give out what it still holds
                if not check(bad, i, 'stream.read', v, got, val):
                    return
        loop.run_until_complete(go())
    elif how == 'strl':         # a read is outstanding all the time
        async def go():
            ss = list(segs)
            t = asyncio.ensure_future(ch.read())
            i = 0
            await settle_little()
            for v in h:
                if v['a'] != 'ret':
                    await idle()
                    if t.done():
                        got, val = outcome(t.result)
                        bad.append([i, 'stream.read.early', 'read ended (%s %r) before a message was complete' % (got, val)])
                        return
                    arrive(v, ss)
                    await settle_little()
                    continue
                await settle(t)
                if not t.done():
                    bad.append([i, 'hang', 'read does not finish although it could (%r)' % (v,)])
                    t.cancel()
                    return
                got, val = outcome(t.result)
                if not check(bad, i, 'stream.read', v, got, val):
                    return
                i += 1
                if v['k'] == 'msg':
                    t = asyncio.ensure_future(ch.read())
                    await settle_little()
            if not t.done():
                t.cancel()
        loop.run_until_complete(go())
    else:                       # synchronous reads, the segments arrive while they block
        ss, i, pend = list(segs), 0, []
        for v in h:
            if v['a'] != 'ret':
                pend.append(v)
                continue

            async def feeder(p):
                for x in p:
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    await idle()
                    arrive(x, ss)
            f = loop.create_task(feeder(pend)) if pend else None
            got, val = outcome(ch.read_sync)
            if f is not None:
                loop.run_until_complete(f)
            pend = []
            if not check(bad, i, facet + '.read', v, got, val):
                break
            i += 1
    # writing, also through a full buffer
    if reader.exception() is None and not tr.closed:
        async def fresh():
            return await make()
        reader, proto, tr, writer, ch = loop.run_until_complete(fresh())
        for n, ws in enumerate(beh['ws']):
            ms = [rnd.choice([bytes, bytearray])(m) for m in ws]
            last = rnd.random() < .3
            if sync:
                got, val = outcome(lambda: ch.write_sync(*ms, **drive.flag(last, n % 2)))
            else:
                async def w():
                    full = rnd.random() < .5
                    if full:
                        proto.pause_writing()
                    t = asyncio.ensure_future(ch.write(*ms, **drive.flag(last, n % 2)))
                    await settle(t) if not full else await settle_little()
                    if full:
                        await idle()
                        proto.resume_writing()
                    await settle(t)
                    return outcome(t.result) if t.done() else ('hang', None)
                got, val = loop.run_until_complete(w())
            if got != 'msg':
                bad.append([-1, facet + '.write.exc', 'write: %s' % got])
        total = len(beh['s']) - len(beh['raw'])
        if bytes(tr.sent) != bytes(beh['s'][:total]):
            bad.append([-1, facet + '.write.bytes', 'wrote %r, expected %r' % (bytes(tr.sent), bytes(beh['s'][:total]))])
        if beh['ws']:
            async def lost():
                proto.pause_writing()
                t = asyncio.ensure_future(ch.write(*[bytes(m) for m in beh['ws'][0]]))
                await settle_little()
                proto.connection_lost(err)
                await settle(t)
                return outcome(t.result) if t.done() else ('hang', None)
            got, val = loop.run_until_complete(lost())
            if got not in FAMILY:
                bad.append([-1, facet + '.write.fail', 'write over a lost connection: %s, expected a ComException' % ('no error' if got == 'msg' else got)])


async def settle_little():
    for _ in range(6):
        await asyncio.sleep(0)
