"""Plays behaviours of spec/EncChan.tla to the real EncryptedChannelV2, and checks that the synchronous API is complete."""
import asyncio
import inspect
import random
import struct

from nacl import bindings as nb

import drive
from drive import Hang, TestChannel, Watchdog, exc_name
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role


def play(loop, item):
    bad = []
    try:
        with Watchdog(60):
            _play(loop, item, bad)
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    return bad


class LoopChannel(TestChannel):
    async def read(self):
        self.on = asyncio.get_running_loop()
        return await super().read()

    boom = None

    async def write(self, *a, **k):
        self.on = asyncio.get_running_loop()
        if self.boom is not None:
            x, self.boom = self.boom, None
            raise x
        return await super().write(*a, **k)


def _play(loop, item, bad):
    own = None
    if item['how'] == 'sync' and random.Random('encl/' + item['seed']).random() < .2:
        own = asyncio.new_event_loop()
    try:
        _play1(loop, item, bad, own)
    finally:
        if own is not None:
            own.close()


def _play1(loop, item, bad, own):
    r = random.Random('enc/' + item['seed'])
    h, how = item['beh']['h'], item['how']
    key = r.randbytes(32)
    sn = r.randbytes(8) if r.random() < .3 else bytes(8)
    kw = {} if sn == bytes(8) and r.random() < .7 else {'session_nonce': sn}
    if own is not None:
        kw['loop'] = own
    tch, ch = {}, {}
    for e, role in (('c', Role.CLIENT), ('s', Role.SERVER)):
        tch[e] = LoopChannel()
        ch[e] = EncryptedChannelV2(tch[e], key, role, **kw)
    pre = 'sync.enc' if how == 'sync' else 'enc'

    def call(e, name, *a, **k):
        try:
            if how == 'sync':
                try:
                    return 'ok', getattr(ch[e], name + '_sync')(*a, **k)
                finally:
                    if own is not None and tch[e].on is not own:
                        bad.append([-1, 'sync.loop', 'the channel was given an event loop, but its blocking call ran on another one'])

            async def go():
                t = asyncio.ensure_future(getattr(ch[e], name)(*a, **k))
                for _ in range(300):
                    if t.done() or tch[e].waiting:
                        break
                    await asyncio.sleep(0)
                if not t.done():
                    t.cancel()
                    return 'wait', None
                return 'ok', t.result()
            return loop.run_until_complete(go())
        except (Exception, asyncio.CancelledError) as x:
            seen.append(x)
            return exc_name(x), None
    seen = []
    datas = {}

    same = r.random() < .4           # messages with the same content, even the same object

    def data(e, d):
        k = (e, d[0], 0 if same else d[1])
        if k not in datas:
            n = {'e': 0, 'a': r.choice([1, 2, 15, 16, 17, 31, 32, 33, 200]), 'L': r.choice([65535, 65536, 70001])}[d[0]]
            datas[k] = r.randbytes(n)
        return datas[k]

    def packet(e, p):       # e: the writer
        nonce = struct.pack('<Q', p['n']) + sn + bytes(8)
        return bytes([6, 0x80 if p['last'] else 0]) + nb.crypto_box_afternm(data(e, p['d']), nonce, key)
    other = {'c': 's', 's': 'c'}
    for i, v in enumerate(h):
        e = v['e']
        if v['a'] == 'wr':
            tch[e].writes.clear()
            ms = [data(e, d) for d in v['ds']]
            bs, wipe = drive.lend(r, ms, .2)
            res, _ = call(e, 'write', *bs, **drive.flag(v['last'], r.random() < .5))
            wipe()
            if res != 'ok':
                bad.append([i, pre + '.write', 'write: %s' % res])
                return
            exp = [packet(e, p) for p in v['ps']]
            got = tch[e].writes
            if len(got) != 1 or list(got[0][0]) != exp:
                bad.append([i, pre + '.packets', 'the packets handed to the transport are not those prescribed: %d writes, %s' % (
                    len(got), [x.hex()[:60] for w in got for x in w[0]])])
                return
            if got[0][1] != v['last']:
                bad.append([i, pre + '.last', 'is_last not passed on'])
            continue
        if v['a'] in ('fw', 'fr'):
            exc = {'com': lambda: drive.down('transport'), 'os': lambda: ConnectionResetError('transport'), 'value': lambda: ValueError('transport'),
                   'cancel': asyncio.CancelledError}[v['x']]()
            seen.clear()
            if v['a'] == 'fw':
                tch[e].writes.clear()
                tch[e].boom = exc
                res, _ = call(e, 'write', *[data(e, d) for d in v['ds']])
            else:
                tch[e].feed(exc)
                res, _ = call(e, 'read')
            if not seen or type(seen[0]) is not type(exc):
                bad.append([i, pre + '.raise', 'the transport raises %r, the caller gets %s %r' % (exc, res, seen[:1])])
                return
            continue
        if v['a'] == 'rd':
            raw = packet(other[e], v['ps'][0])
        else:
            x = v['x']
            base = packet(e if x == 'own' else other[e], v['ps'][0]) if v['ps'] else b''
            if x == 'flip':
                b = bytearray(base)
                b[r.randrange(2, len(b))] ^= 1 << r.randrange(8)
                raw = bytes(b)
            elif x == 'cut':
                raw = base[:r.randrange(2, len(base))]
            elif x == 'grow':
                raw = base + bytes(r.choice([1, 16]))
            elif x == 'type':
                raw = bytes([r.choice([0, 1, 3, 5, 7, 11, 0x86])]) + base[1:]
            elif x == 'short':
                raw = b'\x06\x00' + r.randbytes(r.randrange(16))
            elif x == 'empty':
                raw = b''
            else:
                raw = base
        tch[e].feed(raw)
        res, val = call(e, 'read')
        if v['a'] == 'rd':
            if res != 'ok':
                bad.append([i, pre + '.read', 'the next genuine packet is refused: %s' % res])
                return
            if not isinstance(val, (bytes, bytearray)) or bytes(val) != data(other[e], v['ds'][0]):
                bad.append([i, pre + '.data', 'read returned %r' % (val,)])
                return
            if bool(ch[e].last_flag) != v['last']:
                bad.append([i, pre + '.flag', 'last_flag is %r, the packet says %r' % (ch[e].last_flag, v['last'])])
        elif res != 'BadPeer':
            bad.append([i, pre + '.bad', '%s packet: expected BadPeer, got %s %r' % (v['x'], res, val)])
            return


def api(loop, item):
    """Every public coroutine of the listed classes has a blocking counterpart."""
    from saltchannel.channel import AsyncioChannel, SocketChannel
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.v2.salt_client_session import SaltClientSession
    from saltchannel.v2.salt_server_session import SaltServerSession
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    from saltchannel.channel import ByteChannel
    bad = []
    for cls in (SaltClientSession, SaltServerSession, EncryptedChannelV2, AppChannelV2, AsyncioChannel, A1ClientSession, SocketChannel):
        for n in dir(cls):
            f = getattr(cls, n)
            if n.startswith('_') or not inspect.iscoroutinefunction(f):
                continue
            g = getattr(cls, n + '_sync', None)
            if g is None or inspect.iscoroutinefunction(g) or g is getattr(ByteChannel, n + '_sync', None):
                bad.append([-1, 'sync.api', '%s.%s has no synchronous counterpart' % (cls.__name__, n)])
    # a channel that is given an event loop runs its blocking calls on that one
    from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
    ran = []

    class Below(TestChannel):
        async def read(self):
            ran.append(asyncio.get_running_loop())
            return b'\x05\x00\x00\x00\x00\x00x'

        async def write(self, *a, **k):
            ran.append(asyncio.get_running_loop())

    class Stream:
        def write_msg(self, m):
            ran.append(asyncio.get_running_loop())

        async def drain(self):
            ran.append(asyncio.get_running_loop())

        async def read_msg(self):
            ran.append(asyncio.get_running_loop())
            return b'x'
    own = asyncio.new_event_loop()
    for n, ch in (('AppChannelV2', lambda: AppChannelV2(Below(), NullTimeKeeper(), NullTimeChecker(), loop=own)),
                  ('AsyncioChannel', lambda: AsyncioChannel(Stream(), Stream(), loop=own))):
        ran.clear()
        try:
            with Watchdog(60):
                ch = ch()
                ch.write_sync(b'x', b'y')
                ch.write_sync(b'x')
                if bytes(ch.read_sync()) != b'x':
                    bad.append([-1, 'sync.loop', '%s on an event loop of its own: another message is read' % n])
            if not ran or any(l is not own for l in ran):
                bad.append([-1, 'sync.loop', '%s was given an event loop, but its blocking calls ran on another one' % n])
        except Hang as h:
            bad.append([-1, 'hang', str(h)])
        except Exception as x:
            bad.append([-1, 'sync.loop', '%s on an event loop of its own: %s: %s' % (n, type(x).__name__, x)])
    own.close()
    return bad
