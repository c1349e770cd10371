"""Concretisation: symbolic terms of spec/SaltV2.tla -> bytes on the wire.

Independent of the code under test: packet layouts are written out here from the Salt Channel v2
format, cryptography is PyNaCl's, and the terms are the records TLC prints."""
import json
import random
import struct

from nacl import bindings as nb

NULL_TIME = 0
LOW_POINTS = [bytes(32), b'\x01' + bytes(31),
              bytes.fromhex('e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800'),
              bytes.fromhex('5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157'),
              bytes.fromhex('ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
              bytes.fromhex('edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
              bytes.fromhex('eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f')]

PCHARS = b'-./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz'


def key(term):
    return json.dumps(term, sort_keys=True, separators=(',', ':'))


def nonce(n):
    return struct.pack('<Q', n) + bytes(16)


_special = []


def special():
    """Key pairs whose public key begins or ends with 0, or with bytes that mean something elsewhere (type bytes, text)."""
    if not _special:
        r = random.Random('special keys')
        es, ss = {}, {}
        classes = [lambda b: b[0] == 0, lambda b: b[-1] == 0, lambda b: b[0] == 255, lambda b: b[0] in (1, 2, 8), lambda b: b[0] in b' \n\t\r', lambda b: b[-1] in (32, 10, 9, 13),
                   lambda b: b[0] in (6, 0x80), lambda b: b[-1] in (0x80, 0x7f)]
        for d, mk in ((es, lambda s: (s, nb.crypto_scalarmult_base(s))), (ss, lambda s: nb.crypto_sign_seed_keypair(s)[::-1])):
            while len(d) < len(classes):
                kp = mk(r.randbytes(32))
                for i, c in enumerate(classes):
                    if i not in d and c(kp[1]):
                        d[i] = kp
        _special.extend([[es[i] for i in sorted(es)], [ss[i] for i in sorted(ss)]])
    return _special


class Concrete:
    """Concrete values for one behaviour; everything is drawn from the seed."""

    def __init__(self, seed, near='sS'):
        self.rnd = r = random.Random('conc/%s' % seed)
        self.enc, self.sig = {}, {}
        odd = r.random()
        for k in ('cE', 'sE', 'cO', 'sO', 'xE', 'jE'):
            sec = r.randbytes(32)
            self.enc[k] = (sec, nb.crypto_scalarmult_base(sec))
        for k in ('cS', 'sS', 'xS'):
            pk, sk = nb.crypto_sign_seed_keypair(r.randbytes(32))
            self.sig[k] = (sk, pk)
        if odd < .25:
            # keys that begin or end with special bytes
            es, ss = special()
            for k, v in zip(('cE', 'sE'), r.sample(es, 2)):
                self.enc[k] = v
            for k, v in zip(('cS', 'sS'), r.sample(ss, 2)):
                self.sig[k] = v
        self.same = r.random() < .12
        # oS: a key that differs from another one in a single bit somewhere
        b = bytearray(self.sig[near][1])
        pos = r.choice([0, 31, 15, 16, 30, 1, r.randrange(32)])
        b[pos] ^= 1 << r.randrange(8)
        v = r.random()
        if v < .15:                  # ... or one that is no ordinary key at all
            b = r.choice([bytes(32), bytes(32), b'\xff' * 32, b'\x01' + bytes(31), bytes(31) + b'\x01'])
        self.sig['oS'] = (None, bytes(b))
        self.low = r.choice(LOW_POINTS[1:])
        self.tbase = {s: r.choice([0, 0, 1, 250, 65530, 0x7ffffff0, 0x80000000, 0xfffffff0 - 64, (1 << 32) - 3, (1 << 32) - 4, r.randrange(1 << 31)]) for s in 'cs'}
        self.badfirst = r.choice([2, 3, 255, 256, 257, 65536, 0x01000000, 0x80000000, 0x80000001, 0xffffffff])
        self.datalen = {}
        self._shared = {}
        self.real = {}     # term -> bytes actually seen on the wire for it
        self._cache = {}

    # ---- leaves
    def pub(self, k):
        if k == 'zero':
            return bytes(32)
        if k == 'LOW':
            return self.low
        if k in self.enc:
            return self.enc[k][1]
        return self.sig[k][1]

    def time(self, tick, side):
        if tick <= 0:
            return 0 if tick == 0 else 77
        if tick == 1:
            return 1
        return (self.tbase[side] + tick) & 0xffffffff

    def first(self, tick):
        return self.badfirst if tick == 9 else (tick if tick in (0, 1) else 77)

    def data(self, d):
        cls, ser = d[0], d[1]
        if self.same and ser < 900:
            ser = 0                  # all messages of a class are the same object
        k = (cls, ser)
        if k not in self.datalen:
            r = random.Random('data/%s/%s/%s' % (self.rnd.random(), cls, ser))
            if cls == 'e':
                v = b''
            elif cls == 'a':
                n = r.choice([1, 2, 3, 5, 6, 7, 16, 31, 32, 33, 64, 100, 255, 256, 257, 300, 1000, r.randrange(1, 60)])
                v = r.randbytes(n)
            elif cls == 'm':
                v = r.randbytes(65535)
            elif cls == 'L':
                v = r.randbytes(r.choice([65536, 65537, 65536 + 255, 66000, 131072, 131071, 70000]))
            else:
                raise ValueError(cls)
            self.datalen[k] = v
        return self.datalen[k]

    def prot(self, p):
        r = random.Random('prot/%s/%s' % (p, self.badfirst))
        if p == 'def':
            return [(b'SCv2------', b'----------')]
        n = {'none': 0, 'inj0': 0, 'inj1': 1, 'inj3': 3, 'inj127': 127}[p]
        return [tuple(bytes(r.choice(PCHARS) for _ in range(10)) for _ in (0, 1)) for _ in range(n)]

    def shared(self, dh):
        dh = tuple(dh)
        if dh not in self._shared:
            a, b = dh
            if a in self.enc:
                self._shared[dh] = nb.crypto_box_beforenm(self.pub(b), self.enc[a][0])
            else:
                self._shared[dh] = nb.crypto_box_beforenm(self.pub(a), self.enc[b][0])
        return self._shared[dh]

    def signature(self, sg):
        if sg['by'] == 'none':
            return bytes(64)
        msg = {'1': b'SC-SIG01', '2': b'SC-SIG02'}[sg['pre']] + b''.join(nb.crypto_hash(self.enc_any(sg[k])) for k in 'ab')
        if sg['by'] == 'oS':
            return self.rnd.randbytes(64)
        return nb.crypto_sign(msg, self.sig[sg['by']][0])[:64]

    # ---- packets
    def body(self, b, side):
        t, x = b['t'], b['x']
        tm = struct.pack('<I', self.time(b['time'], side)) if 'time' in b else b''
        if t in ('M3', 'M4'):
            raw = bytes([3 if t == 'M3' else 4, 0]) + tm + self.pub(b['sk']) + self.signature(b['sig'])
            if x == 'short':
                raw = raw[:self.rnd.choice([0, 1, 5, 6, 37, 38, 70, 101])]
            elif x == 'long':
                raw += self.rnd.randbytes(self.rnd.choice([1, 2, 64]))
            elif x == 'trail':
                raw += self.rnd.randbytes(self.rnd.choice([1, 2, 64]))
            elif x == 'type':
                raw = bytes([self.rnd.choice([0, 1, 2, 5, 6, 7, 8, 9, 11, 0x83, 255])]) + raw[1:]
            return raw
        if t == 'APP':
            raw = b'\x05\x00' + tm + self.data(b['ds'][0])
            if x == 'type':
                raw = bytes([self.rnd.choice([0, 1, 2, 6, 7, 10, 12, 0x85, 255])]) + raw[1:]
            return raw
        if t == 'MUL':
            ds = [self.data(d) for d in b['ds']]
            raw = b'\x0b\x00' + tm + struct.pack('<H', len(ds) + (self.rnd.choice([1, 2, 100, 60000]) if x == 'cntmore' else 0))
            for i, d in enumerate(ds):
                n = len(d)
                if x == 'lenmore' and i == len(ds) - 1:
                    n += self.rnd.choice([1, 2, 500, 60000])
                raw += struct.pack('<H', n) + d
            if x == 'trail':
                raw += self.rnd.randbytes(self.rnd.choice([1, 2, 3, 10]))
            if x == 'lencut':
                raw = raw[:8] + self.rnd.choice([b'', b'\x00', raw[8:8 + 2 + len(ds[0]) + 1], raw[8:8 + 2 + len(ds[0])]])
            return raw
        if t == 'BAD':
            g = b['g']
            if g == 'b0':
                return b''
            if g == 'b1':
                return self.rnd.choice([b'\x05', b'\x0b', b'\x00'])
            if g == 'b5':
                return self.rnd.choice([b'\x05\x00', b'\x0b\x00'] ) + self.rnd.randbytes(self.rnd.choice([1, 2, 3]))
            if g == 'type0':
                return bytes([self.rnd.choice([0, 1, 2, 6, 8, 9, 10, 12, 200])]) + self.rnd.randbytes(20)
            if g == 'guess':
                return b'\x05\x00\x00\x00\x00\x00hello'
        raise ValueError(b)

    def head(self, x, ty, flags, rsv):
        return bytes([ty, flags | (rsv if x == 'rsv' else 0)])

    def enc_any(self, m):
        k = key(m)
        if k in self.real:
            return self.real[k]
        if k not in self._cache:
            self._cache[k] = self._enc(m)
        return self._cache[k]

    def expected(self, m):
        """The bytes the specification prescribes for m (never the recorded ones, except inside signatures)."""
        k = 'X' + key(m)
        if k not in self._cache:
            self._cache[k] = self._enc(m)
        return self._cache[k]

    def _enc(self, m):
        t, x, r = m['t'], m['x'], self.rnd
        if t == 'M1':
            w = m['want'] != 'none'
            raw = b'SCv2' + self.head(x, 1, 1 if w else 0, r.choice([2, 4, 8, 16, 32, 64, 128, 0xfe])) + struct.pack('<I', self.first(m['time'])) + self.pub(m['key'])
            if w:
                raw += self.pub(m['want'])
            if x == 'trunc':
                raw = raw[:r.choice([len(raw) - 1, len(raw) - 1, 41, 10, 9, 6, 5, 4])]
            elif x == 'wantcut':
                raw = raw[:5] + bytes([raw[5] | 1]) + raw[6:42] + (r.randbytes(r.choice([0, 1, 31])) )
            elif x == 'type':
                raw = raw[:4] + bytes([r.choice([0, 2, 3, 8, 9, 0x81, 255])]) + raw[5:]
            elif x == 'prot':
                p = r.randrange(4)
                raw = raw[:p] + bytes([raw[p] ^ (1 << r.randrange(8))]) + raw[p + 1:]
                if raw[0] == 8:
                    raw = b'\x07' + raw[1:]
            elif x == 'trail':
                raw += r.randbytes(r.choice([1, 2, 31, 32, 33]))
            return raw
        if t == 'M2':
            raw = self.head(x, 2, 0x81 if m['nss'] else 0, r.choice([2, 4, 8, 16, 32, 64, 128])) + struct.pack('<I', self.first(m['time'])) + self.pub(m['key'])
            if x == 'trunc':
                raw = raw[:r.choice([37, 37, 6, 5, 2, 1])]
            elif x == 'type':
                raw = bytes([r.choice([0, 1, 3, 6, 8, 9, 0x82, 255])]) + raw[1:]
            elif x == 'trail':
                raw += r.randbytes(r.choice([1, 2, 32, 80]))
            return raw
        if t == 'E':
            side = 'c' if m['n'] % 2 else 's'
            c = nb.crypto_box_afternm(self.body(m['body'], side), nonce(m['n']), self.shared(m['dh']))
            raw = self.head(x, 6, 0x80 if m['last'] else 0, r.choice([1, 2, 4, 8, 16, 32, 64, 0x7f])) + c
            if x == 'flip':
                p = r.choice([2, len(raw) - 1, r.randrange(2, len(raw)), r.randrange(2, 18), r.randrange(2, len(raw))])
                raw = raw[:p] + bytes([raw[p] ^ (1 << r.randrange(8))]) + raw[p + 1:]
            elif x == 'trunc':
                raw = raw[:r.choice([len(raw) - 1, len(raw) - 1, 2, 3, 17, 18, 1, max(2, len(raw) - 16)])]
            elif x == 'ext':
                raw += r.randbytes(r.choice([1, 2, 16]))
            elif x == 'type':
                # never a type some waiting session could take for a message of its own
                raw = bytes([r.choice([0, 3, 4, 5, 7, 11, 0x86, 255])]) + raw[1:]
            return raw
        if t == 'A1':
            addr = b'' if m['addr'] == 'none' else self.pub(m['addr'])
            at, size = m['at'], len(addr)
            if x == 'anyaddr':
                at, addr = 0, addr or bytes(r.choice([1, 32]))
                size = len(addr)
            elif x == 'size31':
                at, addr, size = 1, r.randbytes(31), 31
            elif x == 'size33':
                at, addr, size = 1, r.randbytes(33), 33
            elif x == 'sizemis':
                at, addr = 1, r.randbytes(32)
                size = r.choice([31, 33, 0, 65535, 256 + 32])
            elif x == 'at2':
                at = r.choice([2, 3, 128, 255])
            elif x == 'long':
                at, addr = 0, r.randbytes(70000)
                size = len(addr) & 0xffff
            raw = self.head(x if x == 'rsv' else '', 8, 0, 1 << r.randrange(8)) + bytes([at]) + struct.pack('<H', size) + addr
            if x == 'trunc':
                raw = raw[:r.choice([4, 3, 2, 1])]
            elif x == 'type':
                raw = bytes([r.choice([0, 1, 7, 9, 0x88])]) + raw[1:]
            return raw
        if t == 'A2':
            ps = self.prot(m['prot'])
            cnt, fl = len(ps), 0x81 if m['nss'] else 0x80
            if x in ('badchar', 'badchar2', 'cntless', 'nsscnt') and not ps:
                ps = self.prot('inj1')
                cnt = 1
            if x == 'cntmore':
                cnt = min(127, cnt + 1) if cnt < 127 else 126
            elif x == 'cntless':
                cnt -= 1
            elif x == 'nsscnt':
                fl = 0x81
            elif x == 'nolast':
                fl &= 0x7f
            elif x == 'neg':
                cnt = r.choice([128, 255, 200])
            ps = [list(p) for p in ps]
            if x in ('badchar', 'badchar2'):
                i, j, p = r.randrange(len(ps)), (0 if x == 'badchar' else 1), r.choice([0, 9, 9, 5])
                b = bytearray(ps[i][j])
                b[p] = r.choice([0, 10, 13, 32, 42, 43, 44, 58, 64, 91, 96, 123, 127, 128, 0xaa, 0xb5, 0xc3, 0xff])
                if r.random() < .25:     # a name of nothing else
                    b = bytes([b[p]]) * 10
                    if r.random() < .5:
                        ps[i][1 - j] = b
                ps[i][j] = bytes(b)
            raw = self.head(x, 9, fl, r.choice([2, 4, 8, 16, 32, 64])) + bytes([cnt]) + b''.join(a + b for a, b in ps)
            if x == 'trunc':
                raw = raw[:r.choice([0, 1, 2])] if not ps else raw[:r.choice([1, 2, 3, 22, len(raw) - 1])]
            elif x == 'type':
                raw = bytes([r.choice([0, 2, 8, 10, 0x89])]) + raw[1:]
            elif x == 'trail':
                raw += bytes(r.choice([1, 5, 19]))
            return raw
        if t == 'NIL':
            return b''
        if t == 'G':
            g = m['g']
            if g == 'empty':
                return b''
            if g == 'one':
                return bytes([r.choice([0, 1, 2, 6, 8, 9, 0x53, r.randrange(256)])])
            if g == 'two':
                return bytes([r.choice([0, 1, 2, 6, 8, 9]), r.choice([0, 1, 0x80, 0x81])])
            if g.startswith('rand'):
                n = int(g[4:])
                b = r.randbytes(n)
                # keep it from being a well-formed message by accident
                return bytes([r.choice([0, 3, 4, 5, 7, 10, 11, 12, 200])]) + b[1:]
            if g == 'm1type':
                return b'SCv2' + r.randbytes(r.choice([0, 1, 5, 37]))[:0] + bytes([r.choice([0, 2, 7, 8])]) + r.randbytes(60)
            if g == 'eshort':
                return b'\x06\x00' + r.randbytes(r.choice([0, 1, 15]))
        raise ValueError(m)

    # ---- explaining a difference: which aspect of the packet is wrong
    def explain(self, m, actual):
        """Return the list of facets in which `actual` differs from the packet term m prescribes."""
        want = self.expected(m)
        if want == actual:
            return []
        out = []
        if m['t'] != 'E':
            if not isinstance(actual, (bytes, bytearray)) or len(actual) != len(want) or actual[:1] != want[:1]:
                return ['body']
            o = 6 if m['t'] == 'M1' else 2
            if m['t'] in ('M1', 'M2'):
                if actual[o:o + 4] != want[o:o + 4]:
                    out.append('time')
                if actual[o - 1] != want[o - 1]:
                    out.append('flag')
                if actual[:o - 1] + actual[o + 4:] != want[:o - 1] + want[o + 4:]:
                    out.append('body')
            else:
                out.append('body')
            return out
        if len(actual) < 18 or actual[0] != 6:
            return ['seal', 'body']
        if actual[1] != want[1]:
            out.append('flag')
        k = self.shared(m['dh'])
        clear = None
        for n in [m['n']] + [x for x in list(range(0, 80)) + [m['n'] + 2 * i for i in range(-40, 40)] if x != m['n'] and x >= 0]:
            try:
                clear = nb.crypto_box_open_afternm(actual[2:], nonce(n), k)
            except Exception:
                continue
            if n != m['n']:
                out.append('nonce')
            break
        if clear is None:
            return out + ['seal', 'nonce', 'body']
        side = 'c' if m['n'] % 2 else 's'
        exp = self.body(m['body'], side)
        if clear == exp:
            return out or ['body']
        if clear[:2] == exp[:2] and len(clear) == len(exp):
            if clear[2:6] != exp[2:6]:
                out.append('time')
            if clear[6:] != exp[6:]:
                out.append('sig' if m['body']['t'] in ('M3', 'M4') else 'data')
        else:
            out += ['body', 'data']
        return out or ['body']
