"""Records what the users of a whole salt channel see, over real transports, for spec/Stack.tla."""
import asyncio
import json
import random
import socket
import threading

import drive
from concrete import Concrete
from drive import Hang, Watchdog, exc_name
from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.dev.client_server_a import open_saltchannel_connection
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.tunnel import TunnelMP
from saltchannel.util.key_pair import KeyPair
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession
from tasks_fifo import Log, join

OTHER = {'c': 's', 's': 'c'}


class Stack(Log):
    def __init__(self, item):
        super().__init__('stack/' + item['seed'])
        self.item = item
        self.conc = Concrete(item['seed'])
        self.n = 0
        self.opt = dict(b2=self.rnd.random() < .5, b4=self.rnd.random() < .5, want=self.rnd.random() < .5)

    def session(self, e, ch):
        if self.item['mitm']:
            ch = MitmChannel(ch)
        c = self.conc
        me = (SaltClientSession if e == 'c' else SaltServerSession)(KeyPair(*c.sig[e + 'S']), ch)
        me.enc_keypair = KeyPair(*c.enc[e + 'E'])
        if e == 'c':
            me.buffer_M4 = self.opt['b4']
            if self.opt['want']:
                me.wanted_server_sig_key = c.sig['sS'][1]
        else:
            me.buffer_m2 = self.opt['b2']
        return me

    def batch(self):
        r = self.rnd
        k = r.random()
        if k < .4:
            ns = [r.choice([0, 1, 2, 5, 100, 1000, 65535, r.randrange(3000)])]
        elif k < .65:
            ns = [r.choice([0, 1, 7, 100, 3000, r.randrange(300)]) for _ in range(r.choice([2, 3, 9, 40]))]
        else:                                            # one packet per message
            ns = [r.choice([0, 1, 100, 20000, 65536, 70000, 200000]) for _ in range(r.choice([1, 2, 5, 9, 16, 24]))] + [65536]
            r.shuffle(ns)
        out = []
        for n in ns:
            b = r.randbytes(n) if n < 5000 else r.randbytes(1000) * (n // 1000) + r.randbytes(n % 1000)
            self.ser.setdefault(b, len(self.ser) + 1)
            out.append(b)
        return out, r.random() < .3

    def wr(self, e, ms, last):
        with self.lock:
            self.n += 1
            self.add(k='wr', e=e, id=self.n, ids=[self.id(m) for m in ms], last=last)
            return self.n

    def rd(self, e, s, r, m=None):
        with self.lock:
            self.add(k='rd', e=e, r=r, id=self.id(m) if r == 'msg' else [0, 0], last=bool(s.app_channel.last) if r == 'msg' else False)


# ---------------------------------------------------------------- one loop, several tasks
async def rec_async(item, st):
    a, b = socket.socketpair()
    for s in (a, b):
        s.setblocking(False)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, st.rnd.choice([8192, 65536, 212992]))
    rw = {'c': await open_saltchannel_connection(sock=a), 's': await open_saltchannel_connection(sock=b)}
    ses = {e: st.session(e, AsyncioChannel(*rw[e])) for e in 'cs'}
    work = {e: [[st.batch() for _ in range(st.rnd.choice([1, 2, 4]))] for _ in range(st.rnd.choice([1, 2, 3, 5]))] for e in 'cs'}
    total = {e: sum(len(b[0]) for t in work[e] for b in t) for e in 'cs'}
    slow = {e: st.rnd.choice([0, 0, 1]) for e in 'cs'}
    stop = []

    async def writer(e, mine):
        for ms, last in mine:
            n = st.wr(e, ms, last)
            try:
                bs, wipe = drive.lend(st.rnd, ms)
                await ses[e].app_channel.write(*bs, **drive.flag(last, st.rnd.random() < .5))
                wipe()
            except Exception as x:
                st.add(k='wre', e=e, id=n, r=exc_name(x))
                stop.append(1)
                return
            st.add(k='wre', e=e, id=n, r='ok')
            for _ in range(st.rnd.randrange(3)):
                await asyncio.sleep(0)

    async def reader(e):
        for _ in range(total[OTHER[e]]):
            if slow[e]:
                await asyncio.sleep(0.0005)
            try:
                m = await ses[e].app_channel.read()
            except Exception as x:
                st.rd(e, ses[e], exc_name(x))
                stop.append(1)
                return
            st.rd(e, ses[e], 'msg', m)

    async def end(e):
        try:
            await ses[e].handshake()
        except Exception as x:
            st.add(k='hs', e=e, r=exc_name(x))
            stop.append(1)
            return
        st.add(k='hs', e=e, r='ok')
        await asyncio.gather(reader(e), *[writer(e, w) for w in work[e]])
    t = asyncio.gather(end('c'), end('s'))
    try:
        for _ in range(60000):
            if stop or t.done():
                break
            await asyncio.sleep(0.002)
        if not stop:
            if not t.done():
                raise Hang('a read or write does not finish')
            await t
            st.add(k='fin')
        else:
            await asyncio.sleep(0.01)
    finally:
        t.cancel()
        for e in 'cs':
            rw[e][1].transport.abort()
        await asyncio.gather(t, return_exceptions=True)
        await asyncio.sleep(0)


# ---------------------------------------------------------------- two threads, blocking API
def rec_sync(item, st):
    if item['how'] == 'sock':
        a, b = socket.socketpair()
        ch = {'c': SocketChannel(a), 's': SocketChannel(b)}
    else:
        a = b = None
        t = TunnelMP()
        ch = {'c': t.channel1, 's': t.channel2}
    turns = [('c',) + st.batch()] + [(st.rnd.choice('cs'),) + st.batch() for _ in range(st.rnd.choice([3, 8, 15]))]
    stop = []

    def end(e):
        s = st.session(e, ch[e])
        try:
            s.handshake_sync()
        except Exception as x:
            st.add(k='hs', e=e, r=exc_name(x))
            stop.append(1)
            return
        st.add(k='hs', e=e, r='ok')
        for who, ms, last in turns:
            if stop:
                return
            if who == e:
                n = st.wr(e, ms, last)
                try:
                    s.app_channel.write_sync(*ms, **drive.flag(last, st.rnd.random() < .5))
                except Exception as x:
                    st.add(k='wre', e=e, id=n, r=exc_name(x))
                    stop.append(1)
                    return
                st.add(k='wre', e=e, id=n, r='ok')
            else:
                for _ in ms:
                    try:
                        m = s.app_channel.read_sync()
                    except Exception as x:
                        st.rd(e, s, exc_name(x))
                        stop.append(1)
                        return
                    st.rd(e, s, 'msg', m)
    ts = [threading.Thread(target=end, args=(e,), daemon=True) for e in 'cs']
    for t in ts:
        t.start()
    try:
        for _ in range(1000):
            for t in ts:
                t.join(0.05)
            if stop or not any(t.is_alive() for t in ts):
                break
        else:
            raise Hang('a blocking call does not finish')
        if not stop:
            st.add(k='fin')
    finally:
        if a is not None:
            for s in (a, b):
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
            for t in ts:
                t.join(1)
            a.close()
            b.close()


def record(loop, item):
    st = Stack(item)
    bad = []
    try:
        with Watchdog(150):
            if item['how'] == 'async':
                loop.run_until_complete(rec_async(item, st))
            else:
                rec_sync(item, st)
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    if not bad:
        with open(item['out'], 'w') as f:
            json.dump(dict(ev=list(st.ev)), f)
    return bad
