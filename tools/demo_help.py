import asyncio
import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import nacl.bindings as nb
from saltchannel.channel import ByteChannel
from saltchannel.exceptions import BadPeer, ComException, NoSuchServerException
from saltchannel.util.key_pair import KeyPair
from saltchannel.util.time import TimeKeeper, TimeChecker
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession


class Mem(ByteChannel):
    """One end of an in-memory channel; tap(msg) may change what is delivered."""

    def __init__(self, inq, outq, tap=None):
        super().__init__()
        self.inq, self.outq, self.tap, self.calls = inq, outq, tap, []

    async def read(self):
        return await asyncio.wait_for(self.inq.get(), 10)

    async def write(self, msg, *args, is_last=False):
        ms = [bytes(m) for m in (msg,) + args]
        self.calls.append((ms, is_last))
        for m in ms:
            for x in (self.tap(m) if self.tap else [m]):
                self.outq.put_nowait(x)


def mem(tapc=None, taps=None):
    a, b = asyncio.Queue(), asyncio.Queue()
    return Mem(a, b, tapc), Mem(b, a, taps)


def sig(n=1):
    pk, sk = nb.crypto_sign_seed_keypair(bytes([n]) * 32)
    return KeyPair(sec=sk, pub=pk)


def enc(n=1):
    sk = bytes([n]) * 32
    return KeyPair(sec=sk, pub=nb.crypto_scalarmult_base(sk))


class Clock(TimeKeeper):
    t = 0

    def get_first_time(self):
        return 1

    def get_time(self):
        return self.t


def pair(tapc=None, taps=None, n=0):
    cc, cs = mem(tapc, taps)
    c, s = SaltClientSession(sig(1 + n), cc), SaltServerSession(sig(101 + n), cs)
    c.enc_keypair, s.enc_keypair = enc(51 + n), enc(151 + n)
    return c, s


async def both(c, s):
    await asyncio.gather(c.handshake(), s.handshake())


def run(co):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    return loop.run_until_complete(asyncio.wait_for(co, 60))


