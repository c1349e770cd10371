"""A process with a chosen set of crypto back ends installed.  Started as  python -I -S child_lib.py <json list>  with any of
native, pynacl, tweet; answers one JSON request per line on stdin.  What is not in the list cannot be found by any import or
library search; tweet is the stand-in in standin/."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
HAVE = json.loads(sys.argv[1])
sys.dont_write_bytecode = True
OUT = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)

import ctypes
import ctypes.util


def install():
    site = glob.glob('/opt/venv/lib/python3*/site-packages')[0]
    solib = glob.glob(site + '/nacl/_sodium*.so')[0]
    if 'pynacl' in HAVE:
        sys.path.append(site)
    if 'tweet' in HAVE:
        sys.path.insert(0, os.path.join(HERE, 'standin'))
        import tweetnacl.raw
        tweetnacl.raw.load()
    sys.path.insert(0, os.environ.get('SALT_REPO', '/repo'))
    find, init = ctypes.util.find_library, ctypes.CDLL.__init__

    def about(name):
        return isinstance(name, (str, bytes, os.PathLike)) and 'sodium' in os.path.basename(os.fsdecode(name))
    if 'native' in HAVE:
        real = find('sodium')
        if real is None:   # no system library: PyNaCl's own libsodium takes its place

            def find2(name):
                return solib if about(name) else find(name)
            ctypes.util.find_library = find2
    else:
        def find3(name):
            return None if about(name) else find(name)

        def init3(self, name, *a, **k):
            if about(name):
                raise OSError('%s: cannot open shared object file: No such file or directory' % name)
            init(self, name, *a, **k)
        ctypes.util.find_library = find3
        ctypes.CDLL.__init__ = init3


NAMES = {'native': ('saltlib_native', 'SaltLibNative'), 'pynacl': ('saltlib_pynacl', 'SaltLibPyNaCl'), 'tweet': ('saltlib_tweetnaclext', 'SaltLibTweetNaClExt'), 'pure': ('saltlib_pure', 'SaltLibPure')}


def backend(n):
    import importlib
    mod, cls = NAMES[n]
    return getattr(importlib.import_module('saltchannel.saltlib.' + mod), cls)


def which(api):
    for n in NAMES:
        if n != 'pure' and isinstance(api, backend(n)):
            return n
    return 'unknown:' + type(api).__name__


class Ref:
    """The reference: PyNaCl's own bindings and hashlib, no code of the package."""

    def crypto_sign_keypair_not_random(self, seed):
        if len(seed) != 32:
            raise ValueError
        import nacl.bindings as b
        return b.crypto_sign_seed_keypair(seed)

    def crypto_box_keypair_not_random(self, sk):
        if len(sk) != 32:
            raise ValueError
        import nacl.bindings as b
        return b.crypto_scalarmult_base(sk), sk

    def crypto_hash(self, m):
        import hashlib
        return hashlib.sha512(m).digest()

    def __getattr__(self, n):
        import nacl.bindings as b
        return getattr(b, n)


class State:
    wrap = None


def libtype(t):
    from saltchannel.saltlib.saltlib import LibType
    return {'best': LibType.LIB_TYPE_BEST, 'native': LibType.LIB_TYPE_NATIVE, 'pynacl': LibType.LIB_TYPE_PYNACL, 'tweet': LibType.LIB_TYPE_TWEETNACL_EXT}[t]


def session():
    """One handshake and one message each way between two sessions of this process."""
    import asyncio
    from saltchannel.channel import ByteChannel
    from saltchannel.saltlib import SaltLib
    from saltchannel.v2.salt_client_session import SaltClientSession
    from saltchannel.v2.salt_server_session import SaltServerSession

    class Ch(ByteChannel):
        def __init__(self, i, o):
            self.i, self.o = i, o

        async def read(self):
            return await self.i.get()

        async def write(self, msg, *more, is_last=False):
            for m in [msg] + list(more):
                self.o.put_nowait(bytes(m))

        def close(self):
            pass

    async def go():
        a, b = asyncio.Queue(), asyncio.Queue()
        lib = SaltLib()
        c = SaltClientSession(lib.create_sig_keys(), Ch(a, b))
        s = SaltServerSession(lib.create_sig_keys(), Ch(b, a))
        for x in (c, s):
            x.enc_keypair = lib.create_enc_keys()
        await asyncio.wait_for(asyncio.gather(c.handshake(), s.handshake()), 30)
        await c.app_channel.write(b'one', b'two')
        got = [await s.app_channel.read(), await s.app_channel.read()]
        await s.app_channel.write(b'three' * 20)
        got.append(await c.app_channel.read())
        return got == [b'one', b'two', b'three' * 20]
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    return loop.run_until_complete(go())


def handle(q):
    op = q['op']
    if op == 'get':
        from saltchannel.saltlib.saltlib import SaltLib
        return which(SaltLib.getLib(libtype(q['t']))) if not q.get('dflt') else which(SaltLib.getLib())
    if op == 'make':
        from saltchannel.saltlib.saltlib import SaltLib, RngType
        kw = {}
        if q['t'] != 'dflt':
            kw['lib_type'] = libtype(q['t'])
        if q.get('rng') is not None:
            kw['rand_type'] = RngType.RNG_IMPL if q['rng'] else RngType.RNG_URANDOM
        State.wrap = SaltLib(**kw)
        return which(State.wrap.api)
    if op == 'session':
        return 'works' if session() else 'wrong data'
    if op == 'avail':
        return 'yes' if backend(q['t']).isAvailable() else 'no'
    if op == 'call':
        on = q['on']
        o = State.wrap if on == 'wrap' else Ref() if on == 'ref' else backend(on)()
        args = [bytes.fromhex(a) if isinstance(a, str) else a for a in q['args']]
        r = getattr(o, q['f'])(*args)
        if hasattr(r, 'pub') and hasattr(r, 'sec'):
            r = (r.pub, r.sec)
        if not isinstance(r, tuple):
            r = (r,)
        for x in r:
            if not isinstance(x, (bytes, bytearray)):
                return ['type:' + type(x).__name__]
        return [bytes(x).hex() for x in r]
    raise KeyError(op)


def main():
    install()
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = {'r': handle(q)}
        except BaseException as e:
            r = {'x': [c.__name__ for c in type(e).__mro__], 't': str(e)[:300]}
        OUT.write(json.dumps(r) + '\n')
        OUT.flush()


if __name__ == '__main__':
    main()
