"""Records encodings, decodings and session inputs for spec/Wire.tla."""
import json
import random
import signal
import struct

from nacl import bindings as nb

import drive
from concrete import Concrete, LOW_POINTS, PCHARS, nonce
from drive import End, Hang, Watchdog, exc_name
from saltchannel.exceptions import BadPeer
from saltchannel.v2 import packets as P
from saltchannel.a1a2 import packets as AP
import saltchannel.util as util

CLS = dict(M1=P.M1Packet, M2=P.M2Packet, M3=P.M3Packet, M4=P.M4Packet, E=P.EncryptedPacket, APP=P.AppPacket, MUL=P.MultiAppPacket,
           A1=AP.A1Packet, A2=AP.A2Packet)
TIMES = [0, 1, 2, 255, 256, 65535, 65536, 0x7badf00d, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x01020304]


def L(b):
    return list(bytes(b))


def half(t):
    return [t & 0xffff, t >> 16]


# ---------------------------------------------------------------- reference encoder (own, for making inputs only)
def ref(kind, f):
    t = struct.pack('<I', f['time']) if 'time' in f else b''
    if kind == 'M1':
        return b'SCv2' + bytes([1, 1 if f['inc'] else 0]) + t + f['key'] + (f['sk'] if f['inc'] else b'')
    if kind == 'M2':
        return bytes([2, (1 if f['nss'] else 0) | (0x80 if f['nss'] or f['last'] else 0)]) + t + f['key']
    if kind in ('M3', 'M4'):
        return bytes([int(kind[1]), 0]) + t + f['key'] + f['sig']
    if kind == 'E':
        return bytes([6, 0x80 if f['last'] else 0]) + f['body']
    if kind == 'APP':
        return b'\x05\x00' + t + f['data']
    if kind == 'MUL':
        return b'\x0b\x00' + t + struct.pack('<H', len(f['msgs'])) + b''.join(struct.pack('<H', len(m)) + m for m in f['msgs'])
    if kind == 'A1':
        return bytes([8, 0, f['at']]) + struct.pack('<H', len(f['addr'])) + f['addr']
    if kind == 'A2':
        return bytes([9, 0x81 if f['nss'] else 0x80, len(f['prots'])]) + b''.join(a + b for a, b in f['prots'])


def fields(kind, r, i=None):
    """A random field record; i cycles through the boundary values."""
    t = TIMES[i % len(TIMES)] if i is not None else r.choice(TIMES + [r.randrange(1 << 32)])
    key = r.choice([r.randbytes(32)] * 4 + [bytes(32), b'\xff' * 32])
    small = lambda: r.randbytes(r.choice([0, 1, 2, 3, 10, 32, r.randrange(60)]))
    if kind == 'M1':
        inc = r.random() < .5 if i is None else i % 2 == 1
        return dict(inc=inc, time=t, key=key, sk=r.randbytes(32) if inc else b'')
    if kind == 'M2':
        nss = r.random() < .3
        return dict(nss=nss, last=nss or r.random() < .3, time=t, key=key)
    if kind in ('M3', 'M4'):
        return dict(time=t, key=key, sig=r.randbytes(64))
    if kind == 'E':
        return dict(last=r.random() < .5, body=r.randbytes(r.choice([16, 16, 17, 18, 31, 32, 33, 64, 100, 118])))
    if kind == 'APP':
        return dict(time=t, data=small())
    if kind == 'MUL':
        return dict(time=t, msgs=[small() for _ in range(r.choice([1, 1, 2, 2, 3, 5, 8]))])
    if kind == 'A1':
        return r.choice([dict(at=0, addr=b''), dict(at=1, addr=r.randbytes(32))])
    if kind == 'A2':
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 127 if r.random() < .1 else 4])
        return dict(nss=n == 0 and r.random() < .5, prots=[tuple(bytes(r.choice(PCHARS) for _ in range(10)) for _ in (0, 1)) for _ in range(n)])


def absf(f):
    out = {}
    for k, v in f.items():
        if k == 'time':
            out[k] = half(v)
        elif isinstance(v, (bytes, bytearray)):
            out[k] = L(v)
        elif k == 'msgs':
            out[k] = [L(m) for m in v]
        elif k == 'prots':
            out[k] = [[L(a), L(b)] for a, b in v]
        else:
            out[k] = v
    return out


# ---------------------------------------------------------------- the code under test
def build(kind, f):
    p = CLS[kind]()
    if kind == 'M1':
        p.data.Header.ServerSigKeyIncluded = 1 if f['inc'] else 0
        p.create_opt_fields()
        p.data.Time = f['time']
        p.ClientEncKey = f['key']
        if f['inc']:
            p.ServerSigKey = f['sk']
    elif kind == 'M2':
        p.data.Time = f['time']
        p.ServerEncKey = f['key']
        p.data.Header.NoSuchServer = 1 if f['nss'] else 0
        if f['last']:
            p.data.Header.LastFlag = 1
    elif kind == 'M3':
        p.data.Time = f['time']
        p.ServerSigKey = f['key']
        p.Signature1 = f['sig']
    elif kind == 'M4':
        p.data.Time = f['time']
        p.ClientSigKey = f['key']
        p.Signature2 = f['sig']
    elif kind == 'E':
        p.data.Header.LastFlag = 1 if f['last'] else 0
        p.Body = f['body']
    elif kind == 'APP':
        p.data.Time = f['time']
        p.Data = f['data']
    elif kind == 'MUL':
        p.data.Time = f['time']
        p.data.Count = len(f['msgs'])
        p.create_opt_fields(msgs=list(f['msgs']))
    elif kind == 'A1':
        p.data.AddressType = f['at']
        p.data.AddressSize = len(f['addr'])
        p.Address = f['addr']
    elif kind == 'A2':
        p.data.Header.NoSuchServer = 1 if f['nss'] else 0
        p.data.Count = len(f['prots'])
        p.create_opt_fields(prot_count=len(f['prots']))
        for i, (a, b) in enumerate(f['prots']):
            p.Prot[i].P1 = util.cbytes(a)
            p.Prot[i].P2 = util.cbytes(b)
    return p


def getf(kind, p):
    d = p.data
    if kind == 'M1':
        inc = bool(d.Header.ServerSigKeyIncluded)
        return dict(inc=inc, time=d.Time, key=p.ClientEncKey, sk=p.ServerSigKey if inc else b'')
    if kind == 'M2':
        return dict(nss=bool(d.Header.NoSuchServer), last=bool(d.Header.LastFlag), time=d.Time, key=p.ServerEncKey)
    if kind == 'M3':
        return dict(time=d.Time, key=p.ServerSigKey, sig=p.Signature1)
    if kind == 'M4':
        return dict(time=d.Time, key=p.ClientSigKey, sig=p.Signature2)
    if kind == 'E':
        return dict(last=bool(d.Header.LastFlag), body=p.Body)
    if kind == 'APP':
        return dict(time=d.Time, data=p.Data)
    if kind == 'MUL':
        return dict(time=d.Time, msgs=[bytes(m) for m in p.opt.Message])
    if kind == 'A1':
        return dict(at=d.AddressType, addr=p.Address)
    if kind == 'A2':
        return dict(nss=bool(d.Header.NoSuchServer), prots=[(bytes(x.P1), bytes(x.P2)) for x in p.Prot])


NOF = {'-': 0}


def decode(kind, b, how, used):
    signal.alarm(40)
    v = dict(k='dec', kind=kind, b=L(b), r='', f=NOF, n=0)
    try:
        if how == 0:
            p = CLS[kind](src_buf=b)
        elif how == 1:
            p = CLS[kind]()
            p.from_bytes(b)
        else:
            p = used          # an instance that decoded something else before
            p.from_bytes(b)
        v['r'] = 'ok'
        v['f'] = absf(getf(kind, p))
        v['n'] = p.size
    except BadPeer:
        v['r'] = 'BadPeer'
    except Hang:
        raise Hang('decoding %s as %s does not end' % (b[:300].hex(), kind))
    except Exception as x:
        v['r'] = 'raised %s: %s' % (type(x).__name__, x)
    return v


def subst(b, r, full):
    """b with single bytes replaced."""
    for i in range(len(b)):
        vals = {0, 1, 0x7f, 0x80, 255, b[i] ^ 1, b[i] ^ 0x80, (b[i] + 1) & 255, (b[i] - 1) & 255} if full or i < 12 else \
               {b[i] ^ (1 << r.randrange(8)), r.choice([0, 255, 0x0a, 0x80, 32])}
        for v in sorted(vals):
            if v != b[i]:
                yield b[:i] + bytes([v]) + b[i + 1:]


def mutants(b, r, full):
    for n in range(len(b)):
        yield b[:n]
    for n in (1, 2, 3, 16, 19, 20, 21, 32, 40):
        yield b + r.randbytes(n)
    yield b + b
    yield from subst(b, r, full)
    for _ in range(40 if full else 12):
        m = bytearray(b)
        for _ in range(r.choice([2, 2, 3, 5])):
            if m:
                m[r.randrange(len(m))] = r.randrange(256)
        m = m[:r.choice([len(m), len(m), r.randrange(len(m) + 1)])]
        yield bytes(m)
    # stretches of one byte
    for k in (1, 2, 4, 8, 10, 16, 20, 32, 64):
        if k < len(b):
            for c in (0, 255):
                p = r.randrange(len(b) - k + 1)
                yield b[:-k] + bytes([c]) * k
                yield b[:p] + bytes([c]) * k + b[p + k:]


def consistent(kind, r):
    """Well-formed on the outside (every length field is right), with contents that the packet kind may forbid."""
    if kind == 'A1':
        for at in (0, 1, 2, 3, 0x7f, 0x80, 255):
            for n in list(range(0, 70)) + [127, 128, 255, 256, 257, 511, 512, 544, 0x2000]:
                yield ref('A1', dict(at=at, addr=r.randbytes(n)))
    elif kind == 'A2':
        for n in (0, 1, 2, 3, 126, 127, 128, 129, 200, 255):
            body = b''.join(bytes(r.choice(PCHARS) for _ in range(20)) for _ in range(n))
            if 0 < n < 4:
                # names made of one byte only
                for c in (0, 255, 32, 45):
                    f = bytes([c])
                    yield bytes([9, 0x80, n]) + f * (20 * n)
                    yield bytes([9, 0x80, n]) + body[:-20] + f * 20
                    yield bytes([9, 0x80, n]) + body[:-10] + f * 10
                    yield bytes([9, 0x80, n]) + body[:-20] + f * 10 + body[-10:]
            for fl in (0x80, 0x81, 0x00, 0x01, 0xff):
                yield bytes([9, fl, n]) + body
    elif kind == 'M1':
        for inc in (0, 1):
            for n in (0, 31, 32, 33, 63, 64, 65):
                yield b'SCv2\x01' + bytes([inc]) + bytes(4) + r.randbytes(n)
    elif kind in ('M2', 'M3', 'M4'):
        for n in (0, 31, 32, 33, 63, 64, 95, 96, 97, 128):
            yield bytes([int(kind[1]), 0]) + bytes(4) + r.randbytes(n)
    elif kind == 'MUL':
        for cnt in (0, 1, 2, 3, 255, 256, 257):
            for have in (cnt - 1, cnt, cnt + 1):
                if have >= 0:
                    yield b'\x0b\x00' + bytes(4) + struct.pack('<H', cnt) + b''.join(struct.pack('<H', len(m)) + m for m in [r.randbytes(r.choice([0, 0, 1, 3])) for _ in range(have)])
    elif kind == 'E':
        for n in range(0, 40):
            yield b'\x06' + bytes([r.choice([0, 0x80])]) + r.randbytes(n)
    elif kind == 'APP':
        for n in range(0, 40):
            yield b'\x05\x00' + r.randbytes(n)


def codec(loop, item):
    try:
        with Watchdog(60):
            return _codec(item)
    except Hang as h:
        return [[-1, 'hang', str(h)]]


def _codec(item):
    r = random.Random('wire/' + item['seed'])
    kind = item['kind']
    full = item.get('full', False)
    ev = []
    vals = [fields(kind, r, i) for i in range(len(TIMES))] + [fields(kind, r) for _ in range(item.get('n', 25))]
    if kind == 'MUL':
        vals += [dict(time=3, msgs=[b''] * n) for n in (255, 256, 257, 600)]
        vals += [dict(time=9, msgs=[r.randbytes(n), b'', r.randbytes(1)]) for n in (255, 256, 257, 3000)]
    if kind == 'APP':
        vals += [dict(time=9, data=r.randbytes(n)) for n in (255, 256, 257, 3000)]
    if kind == 'E':
        vals += [dict(last=True, body=r.randbytes(n)) for n in (255, 256, 257, 3000)]
    if kind == 'A2':
        vals += [dict(nss=False, prots=[(b'SCv2------', b'----------')] * n) for n in (12, 13, 64, 126, 127)]
    for f in vals:
        v = dict(k='enc', kind=kind, f=absf(f), b=[], n=-1)
        try:
            p = build(kind, f)
            n0 = p.size
            b1 = bytes(p)
            v['b'], v['n'] = L(b1), p.size if n0 == p.size else -2
            if bytes(p) != b1:
                v['n'] = -3        # encoding twice gives the same bytes
        except Exception as x:
            v['err'] = '%s: %s' % (type(x).__name__, x)
        ev.append(v)
    used = CLS[kind]()
    k = 0
    for f in vals:
        ev.append(decode(kind, ref(kind, f), k % 3, used))
        k += 1
    done = set()
    for f in vals[:item.get('m', 3)] if kind != 'A2' else [x for x in vals if 1 <= len(x['prots']) <= 3][:2] + [dict(nss=True, prots=[])]:
        for b in mutants(ref(kind, f), r, full):
            if b in done or len(b) > 4000:
                continue
            done.add(b)
            ev.append(decode(kind, b, k % 3, used))
            k += 1
    for b in consistent(kind, r):
        if b not in done and len(b) < 9000:
            ev.append(decode(kind, b, k % 3, used))
            k += 1
    # other kinds' packets and noise
    for o in CLS:
        ev.append(decode(kind, ref(o, fields(o, r)), k % 3, used))
        k += 1
    for _ in range(60):
        b = r.randbytes(r.choice([0, 1, 2, 5, 6, 8, 17, 18, 38, 42, 74, 102, r.randrange(120)]))
        if b and r.random() < .7:
            b = ref(kind, fields(kind, r))[:r.choice([1, 2, 5, 6])] + b
        ev.append(decode(kind, b, k % 3, used))
        k += 1
    if kind == 'A2':
        # every byte value at every end of a protocol string
        for c in range(256):
            for pos in (3, 12, 13, 22):
                b = bytearray(ref('A2', dict(nss=False, prots=[(b'SCv2------', b'----------')])))
                b[pos] = c
                ev.append(decode(kind, bytes(b), 0, used))
    with open(item['out'], 'w') as h:
        json.dump(dict(ev=ev), h)
    return []


# ---------------------------------------------------------------- sessions
CFG = dict(kind='v2', want='none', b2=False, b4=False, ct=False, st=False, chk='null', rej=['', ''], ident='cS', sident='sS', addr='any', a2='def')


class Ses:
    """A real session brought to state st by the harness playing the peer (which holds all keys)."""

    def __init__(self, conc, st, cfg=None):
        self.c, self.st = conc, st
        self.role = 's' if st in ('w1', 'w4', 'sopen') else 'c'
        cfg = dict(CFG, **(cfg or {}))
        if st == 'w9':
            cfg['kind'] = 'a1'
        self.end = End(self.role, cfg, conc)

    async def reach(self):
        c, e, st = self.c, self.end, self.st
        e.begin('a1a2' if st == 'w9' else 'handshake')
        await e.settle()
        if st in ('w1', 'w9'):
            self.base = c._enc({'t': 'M1', 'time': 0, 'key': 'cE', 'want': 'none', 'x': ''}) if st == 'w1' else \
                c._enc({'t': 'A2', 'nss': False, 'prot': 'inj3', 'x': ''})
            return
        if self.role == 'c':
            self.m1 = e.ch.writes[-1][0][0]
            self.m2 = c._enc({'t': 'M2', 'time': 0, 'key': 'sE', 'nss': False, 'x': ''})
            self.base = self.m2
            if st == 'w2':
                return
            e.ch.feed(self.m2)
            await e.settle()
            self.key = c.shared(('cE', 'sE'))
            self.base = b'\x03\x00' + bytes(4) + c.pub('sS') + nb.crypto_sign(b'SC-SIG01' + nb.crypto_hash(self.m1) + nb.crypto_hash(self.m2), c.sig['sS'][0])[:64]
            self.n = 2
            if st == 'w3':
                return
            e.ch.feed(self.seal(self.base))
            await e.settle()
            self.n = 4
        else:
            self.m1 = c._enc({'t': 'M1', 'time': 0, 'key': 'cE', 'want': 'none', 'x': ''})
            e.ch.feed(self.m1)
            await e.settle()
            self.m2 = e.ch.writes[0][0][0]
            self.key = c.shared(('cE', 'sE'))
            self.base = b'\x04\x00' + bytes(4) + c.pub('cS') + nb.crypto_sign(b'SC-SIG02' + nb.crypto_hash(self.m1) + nb.crypto_hash(self.m2), c.sig['cS'][0])[:64]
            self.n = 1
            if st == 'w4':
                return
            e.ch.feed(self.seal(self.base))
            await e.settle()
            self.n = 3

    def seal(self, b):
        return b'\x06\x00' + nb.crypto_box_afternm(b, nonce(self.n), self.key)

    async def give(self, raw):
        """-> (result, messages)"""
        e = self.end
        if self.st in ('copen', 'sopen'):
            e.begin('read')
            await e.settle()
        e.ch.feed(raw)
        await e.settle()
        k, v = e.outcome()
        if k != 'data':
            return k, []
        out = [v]
        for _ in range(400):
            e.begin('read')
            await e.settle()
            if e.ch.waiting:
                break
            k2, v = e.outcome()
            if k2 != 'data':
                return 'then ' + k2, []
            out.append(v)
        return k, out


def usable(sec, pub):
    try:
        return any(nb.crypto_scalarmult(sec, pub))
    except Exception:
        return False


def inputs(st, conc, r, base, full):
    if st == 'w1':
        own = conc.pub('sS')
        bs = [base, ref('M1', dict(inc=True, time=1, key=conc.pub('cE'), sk=own)), ref('A1', dict(at=0, addr=b'')), ref('A1', dict(at=1, addr=own))]
        for b in bs:
            yield b
            yield from mutants(b, r, full)
        yield from consistent('A1', r)
        yield from consistent('M1', r)
        for t in TIMES:
            yield ref('M1', dict(inc=False, time=t, key=conc.pub('cE'), sk=b''))
        for k in LOW_POINTS:
            yield ref('M1', dict(inc=False, time=0, key=k, sk=b''))
    elif st == 'w2':
        yield base
        yield from mutants(base, r, full)
        for t in TIMES:
            yield ref('M2', dict(nss=False, last=False, time=t, key=conc.pub('sE')))
            yield ref('M2', dict(nss=True, last=True, time=t, key=bytes(32)))
        for k in LOW_POINTS:
            yield ref('M2', dict(nss=False, last=False, time=0, key=k))
    elif st == 'w9':
        for f in (None, dict(nss=True, prots=[]), dict(nss=False, prots=[]), dict(nss=False, prots=[(b'SCv2------', b'----------')])):
            if f is None:
                yield from consistent('A2', r)
            b = ref('A2', f) if f else base
            yield b
            yield from mutants(b, r, full)
    elif st in ('w3', 'w4'):
        yield base
        yield from mutants(base, r, full)
        other = bytes([7 - base[0]]) + base[1:]
        yield other
        for k in ('APP', 'MUL', 'M2', 'A2'):
            yield ref(k, fields(k, r))
    else:
        for k in ('APP', 'MUL', 'MUL'):
            b = ref(k, fields(k, r))
            yield b
            yield from mutants(b, r, full)
        for cnt in (0, 1, 2, 3, 255, 256, 65535):
            for tail in (b'', b'\x00', b'\x00\x00', b'\x00\x00\x00\x00', b'\x01\x00A', b'\x01\x00A\x00\x00', b'\xff\xff', b'\xff\xffAA', b'\x00\x00\x00\x00\x00\x00'):
                yield b'\x0b\x00' + bytes(4) + struct.pack('<H', cnt) + tail
        for k in ('M3', 'M4', 'M2', 'E', 'A1', 'A2'):
            yield ref(k, fields(k, r))
    for k in CLS:
        yield ref(k, fields(k, r))
    for _ in range(30):
        yield r.randbytes(r.choice([0, 1, 2, 3, 5, 17, 18, 37, 38, 42, 74, 102, 200, r.randrange(150)]))
    yield r.randbytes(70000)[:3000]


def session(loop, item):
    r = random.Random('wses/' + item['seed'])
    st, full = item['st'], item.get('full', False)
    conc = Concrete(item['seed'])
    ev, bad = [], []

    async def go():
        probe = Ses(conc, st, item.get('cfg'))
        await probe.reach()
        base = probe.base
        ins, seen = [], set()
        for b in inputs(st, conc, r, base, full):
            if b not in seen:
                seen.add(b)
                ins.append(b)
        await probe.end.kill()
        for n, b in enumerate(ins):
            signal.alarm(40)
            s = Ses(conc, st, item.get('cfg'))
            await s.reach()
            sealed = st in ('w3', 'w4', 'copen', 'sopen')
            vst = 'open' if st in ('copen', 'sopen') else st
            if not sealed:
                raw = b
            elif n % 6 == 5:
                # not sealed at all, or damaged after sealing
                raw = r.choice([b, b'\x06\x00' + b, b'\x06\x80' + b[:15], s.seal(b)[:-1], s.seal(b)[:r.randrange(0, 18)], s.seal(b) + b'\x00',
                                bytes([r.choice([0, 1, 2, 3, 4, 5, 7, 11, 0x86])]) + s.seal(b)[1:]])
                vst = 'raw'
            else:
                raw = s.seal(b)
            k, out = await s.give(raw)
            if k.startswith('OTHER:Hang'):
                raise Hang('no answer to the message %s in state %s' % (raw[:300].hex(), st))
            v = dict(k='ses', st=vst, b=L(raw if vst == 'raw' else b), r=k, d=[L(m) if isinstance(m, (bytes, bytearray)) else [999] for m in out],
                     sg=b[6:102] == base[6:102] and len(base) >= 102, own=b[42:74] == conc.pub('sS'),
                     kok=usable(conc.enc['sE' if s.role == 's' else 'cE'][0], (b[10:42] if s.role == 's' else b[6:38]).ljust(32, b'\0')))
            ev.append(v)
            await s.end.kill()
    try:
        with Watchdog(item.get('limit', 300)):
            loop.run_until_complete(go())
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    with open(item['out'], 'w') as h:
        json.dump(dict(ev=ev), h)
    return bad
