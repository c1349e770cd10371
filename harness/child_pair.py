"""A process that runs one client/server pair.  python -B child_pair.py <json>; the events go to the file named in it.
{'do': 'pair', 'kind': 'mp'|'aio', 'grp': [...], 'jit': bool, 'seed': s, 'log': file, 'pause': [op, seconds] the first client waits}
{'do': 'main', 'mod': module with a main(), 'log': file}
Fixed TCP ports are replaced by free ones of this process, so that runs can overlap."""
import asyncio
import asyncio.base_events
import faulthandler
import fcntl
import importlib
import json
import logging
import os
import random
import socket
import sys
import threading
import time

P = json.loads(sys.argv[1])
sys.path.insert(0, os.environ.get('SALT_REPO', '/repo'))
faulthandler.dump_traceback_later(P.get('limit', 60) - 3, exit=False)

LOG = os.open(P['log'], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)


def log(**k):
    os.write(LOG, (json.dumps(k) + '\n').encode())


def counter(name):
    """1, 2, 3, ... over all processes of this run."""
    with open(P['log'] + '.' + name, 'a+') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        n = int(f.read() or 0) + 1
        f.seek(0)
        f.truncate()
        f.write(str(n))
        f.flush()
    return n


# ---- fixed ports
def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    n = s.getsockname()[1]
    s.close()
    return n


PORTS = {}
BE = asyncio.base_events.BaseEventLoop
_serve, _connect = BE.create_server, BE.create_connection


async def create_server(self, factory, host=None, port=None, **k):
    if port:
        for n in range(20):
            PORTS[port] = free_port()
            try:
                return await _serve(self, factory, host, PORTS[port], **k)
            except OSError:
                if n == 19:
                    raise
    return await _serve(self, factory, host, port, **k)


async def create_connection(self, factory, host=None, port=None, **k):
    return await _connect(self, factory, host, PORTS.get(port, port), **k)


BE.create_server, BE.create_connection = create_server, create_connection

from saltchannel.channel import AsyncioChannel
from saltchannel.dev.client_server import MpClientServerPair, Session
from saltchannel.dev.client_server_a import ClientServerPairA, SessionA
from saltchannel.exceptions import ComException


# ---- scripted sessions
class Boom(Exception):
    pass


def pause(c, k):
    p = P.get('pause')
    return p[1] if p and c == 1 and k == p[0] else 0


class Base:
    def __init__(self, kind, grp, seed):
        self.kind, self.grp, self.seed = kind, grp, seed

    def msg(self, c, n, op):
        r = random.Random('%s/%d/%d' % (self.seed, c, n))
        if op == 'z' and n > 1:
            return b''
        size = 150000 + r.randrange(5000) if op == 'E' else r.choice([0, 1, 5, 100, 3000])
        return b'%d:%d:%s:' % (c, n, b'K' if op == 'k' else b'-') + r.randbytes(size)

    def script(self, c):
        """[(op, [messages])]"""
        out, n = [], 0
        for op in self.grp[c - 1]:
            k = {'b': 3, 'x': 0}.get(op, 1)
            out.append((op, [self.msg(c, n + j + 1, op) for j in range(k)], n))
            n += k
        return out

    def ident(self, m, cur):
        """The client and serial number of a message a server session received."""
        try:
            if m == b'':
                return (cur[0], cur[1] + 1, False) if cur[0] and self.is_empty(cur[0], cur[1] + 1) else (0, 0, False)
            c, n, k, _ = bytes(m).split(b':', 3)
            c, n = int(c), int(n)
            for op, ms, base in self.script(c):
                if base < n <= base + len(ms):
                    return (c, n, k == b'K') if ms[n - base - 1] == bytes(m) else (0, 0, False)
        except (ValueError, IndexError):
            pass
        return 0, 0, False

    def is_empty(self, c, n):
        for op, ms, base in self.script(c):
            if base < n <= base + len(ms):
                return ms[n - base - 1] == b''
        return False


class MpSession(Base, Session):
    def server_session(self, channel):
        s = counter('srv')
        log(k='sbeg', s=s)
        cur = (0, 0)
        try:
            while True:
                try:
                    m = channel.read_sync()
                    c, n, boom = self.ident(m, cur)
                    cur = (c, n)
                    log(k='srv', s=s, c=c, n=n)
                    if boom:
                        raise Boom
                    channel.write_sync(m)
                except ComException:
                    return
        finally:
            log(k='send', s=s)

    def client_session(self, channel):
        c = counter('cli')
        log(k='cbeg', c=c)
        how = 'failed'
        try:
            for k, (op, ms, base) in enumerate(self.script(c)):
                time.sleep(pause(c, k))
                if op == 'x':
                    raise Boom
                log(k='csend', c=c)
                channel.write_sync(*ms)
                if op == 'q':
                    break
                for j, m in enumerate(ms):
                    try:
                        v = channel.read_sync()
                    except ComException:
                        raise
                    log(k='cgot', c=c, n=base + j + 1 if bytes(v) == m else 0)
            how = 'done'
        finally:
            log(k='cend', c=c, r=how)


class AioSession(Base, SessionA):
    """Even clients talk through AsyncioChannel, odd ones through the stream helpers."""

    async def server_session(self, reader, writer):
        s = counter('srv')
        log(k='sbeg', s=s)
        cur = (0, 0)
        try:
            ch = AsyncioChannel(reader, writer)
            while True:
                try:
                    m = await ch.read()
                    c, n, boom = self.ident(m, cur)
                    cur = (c, n)
                    log(k='srv', s=s, c=c, n=n)
                    if boom:
                        raise Boom
                    if s % 2:
                        await ch.write(m)
                    else:
                        writer.write_msg(m)
                        await writer.drain()
                except (ComException, ConnectionError):
                    return
        finally:
            log(k='send', s=s)
            writer.close()

    async def client_session(self, reader, writer):
        c = counter('cli')
        log(k='cbeg', c=c)
        how = 'failed'
        try:
            ch = AsyncioChannel(reader, writer)
            for k, (op, ms, base) in enumerate(self.script(c)):
                await asyncio.sleep(pause(c, k))
                if op == 'x':
                    raise Boom
                log(k='csend', c=c)
                if c % 2:
                    for m in ms:
                        writer.write_msg(m)
                    await writer.drain()
                else:
                    await ch.write(*ms)
                if op == 'q':
                    break
                for j, m in enumerate(ms):
                    v = await (reader.read_msg() if c % 2 else ch.read())
                    log(k='cgot', c=c, n=base + j + 1 if bytes(v) == m else 0)
            how = 'done'
        except (ComException, EOFError, ConnectionError):
            raise Boom
        finally:
            log(k='cend', c=c, r=how)
            writer.close()


def pair():
    logging.disable(logging.CRITICAL)
    sys.stderr.flush()
    if P['kind'] == 'mp':
        cs = MpClientServerPair(MpSession('mp', P['grp'], P['seed']))
    else:
        cs = ClientServerPairA(AioSession('aio', P['grp'], P['seed']), len(P['grp']))
    cs.start_server()
    try:
        if P['kind'] == 'mp':
            cs.run_sessions(len(P['grp']), jitter=P['jit'])
        else:
            cs.run_sessions()
        log(k='ret', r='ret')
    except Boom:
        log(k='ret', r='raised')
    settle(cs)
    try:
        cs.stop_server()
        log(k='stop', r='ok')
    except Exception as e:
        log(k='stop', r='%s: %s' % (type(e).__name__, str(e)[:200]))


def settle(cs):
    """Gives the server sessions of finished clients time to end."""
    t0 = time.time()
    while time.time() - t0 < 25:
        ev = [json.loads(l) for l in open(P['log'])]
        if len([e for e in ev if e['k'] == 'sbeg']) >= len(P['grp']) and len([e for e in ev if e['k'] == 'sbeg']) == len([e for e in ev if e['k'] == 'send']):
            return
        if P['kind'] == 'mp':
            time.sleep(.02)
        else:
            asyncio.get_event_loop().run_until_complete(asyncio.sleep(.02))


# ---- the examples
class Tap:
    """Stands between a server session and its channel (both APIs)."""

    def __init__(self, ch):
        self._ch = ch

    def __getattr__(self, n):
        return getattr(self._ch, n)

    def read_sync(self):
        m = self._ch.read_sync()
        log(k='up', m=bytes(m).hex())
        return m

    def write_sync(self, *ms, **k):
        log(k='dn', m=[bytes(m).hex() for m in ms])
        return self._ch.write_sync(*ms, **k)

    async def read(self):
        m = await self._ch.read()
        log(k='up', m=bytes(m).hex())
        return m

    async def write(self, *ms, **k):
        log(k='dn', m=[bytes(m).hex() for m in ms])
        return await self._ch.write(*ms, **k)


def tap_streams(reader, writer):
    feed, tr = reader.feed_data, writer.transport
    wr = tr.write

    def feed_data(d):
        log(k='upraw', m=bytes(d).hex())
        return feed(d)

    def write(d):
        log(k='dnraw', m=bytes(d).hex())
        return wr(d)

    def writelines(ds):
        return write(b''.join(bytes(d) for d in ds))
    reader.feed_data = feed_data
    tr.write, tr.writelines = write, writelines


def main():
    mod = importlib.import_module(P['mod'])
    for n, cls in list(vars(mod).items()):
        if isinstance(cls, type) and issubclass(cls, Session) and cls is not Session:
            def wrap(cls=cls, f=cls.server_session, g=cls.client_session):
                def server_session(self, channel):
                    log(k='sbeg')
                    try:
                        return f(self, Tap(channel))
                    finally:
                        log(k='send')

                def client_session(self, channel):
                    try:
                        g(self, channel)
                        log(k='cend', r='done')
                    except BaseException as e:
                        log(k='cend', r='%s: %s' % (type(e).__name__, str(e)[:200]))
                        raise
                cls.server_session, cls.client_session = server_session, client_session
            wrap()
        elif isinstance(cls, type) and issubclass(cls, SessionA) and cls is not SessionA:
            def wrapa(cls=cls, f=cls.server_session, g=cls.client_session):
                async def server_session(self, reader, writer):
                    log(k='sbeg')
                    tap_streams(reader, writer)
                    try:
                        return await f(self, reader, writer)
                    finally:
                        log(k='send')

                async def client_session(self, reader, writer):
                    try:
                        await g(self, reader, writer)
                        log(k='cend', r='done')
                    except BaseException as e:
                        log(k='cend', r='%s: %s' % (type(e).__name__, str(e)[:200]))
                        raise
                cls.server_session, cls.client_session = server_session, client_session
            wrapa()
    mod.main()
    log(k='main', r='done')


if __name__ == '__main__':
    {'pair': pair, 'main': main}[P['do']]()
