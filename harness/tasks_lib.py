"""Crypto back ends: which one is used (LibSelect) and what they compute (CryptoApi)."""
import json
import os
import random
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


class Gone(Exception):
    pass


class Child:
    def __init__(self, have):
        e = {k: v for k, v in os.environ.items() if k not in ('LD_LIBRARY_PATH', 'LD_PRELOAD', 'PYTHONPATH')}
        self.p = subprocess.Popen([PY, '-I', '-S', os.path.join(HERE, 'child_lib.py'), json.dumps(have)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)

    def ask(self, **q):
        try:
            self.p.stdin.write(json.dumps(q) + '\n')
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ''
        if not l:
            self.p.wait(20)
            raise Gone('the process died (%s): %s' % (self.p.returncode, self.p.stderr.read()[-800:]))
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.p.stderr.close()


def select(loop, item):
    beh = item['beh']
    c = Child(beh['avail'])
    bad = []
    try:
        for n, h in enumerate(beh['hist']):
            r = c.ask(op=h['op'], t=h['t'], rng=h['rng'])
            got = r['r'] if 'r' in r else 'NoSuchLib' if 'NoSuchLibException' in r['x'] else '%s: %s' % (r['x'][0], r['t'])
            if got != h['r']:
                bad.append([n, 'lib.' + h['op'], 'installed: %s; %s %s gives %s, specified is %s' % (beh['avail'], h['op'], h['t'], got, h['r'])])
                break
    except Gone as g:
        bad.append([-1, 'lib.died', str(g)])
    finally:
        c.close()
    return bad


# ------------------------------------------------------------------ what the back ends compute
KIDS = {}
ALL = ['native', 'pynacl', 'tweet']
LENS = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257, 1000, 4095, 65535, 65536, 70001]


def kid(lib, rng):
    if (lib, rng) not in KIDS:
        c = KIDS[lib, rng] = Child(ALL)
        r = c.ask(op='make', t=lib, rng=rng)
        if r.get('r') != lib:
            KIDS.pop((lib, rng)).close()
            raise Gone('SaltLib(%s) uses %s' % (lib, r))
        c.ask(op='call', on='ref', f='crypto_hash', args=[''])
    return KIDS[lib, rng]


class Hist:
    def __init__(self, seed, pure=None):
        self.rnd = random.Random('crypto/' + seed)
        self.pure = pure                                    # None, 'sym' or 'asym': only the pure-Python back end and the reference
        self.ids = {}
        self.ev = []
        self.sig, self.box, self.keys = [], [], []          # (seed, pk, sk), (sk, pk), shared keys
        self.signed, self.sealed, self.msgs, self.nonces = [], [], [], []

    def id(self, b):
        return self.ids.setdefault(bytes(b), len(self.ids) + 1)

    def bytes(self, n):
        r = self.rnd
        k = r.random()
        if k < .15:
            return bytes(n)
        if k < .25:
            return b'\xff' * n
        if k < .35:
            return (r.randbytes(n // 2) + bytes(n))[:n]
        return r.randbytes(n)

    def call(self, op, inp, weak=False, who=None, level=None):
        """who: (lib, rng, level) with level 'wrap' (the SaltLib object), 'back' (the back end) or 'ref'."""
        r = self.rnd
        if self.pure:
            slow = op in ('sigkp', 'boxkp', 'sign', 'sopen', 'agree', 'foreign')
            mine = op == 'rand' or any(not isinstance(x, int) and len(x) != 32 for x in inp[:1] if op in ('sigkp', 'boxkp'))
            lib, rng = 'pure', 0
            level = 'back' if mine else level or ('back' if r.random() < (.65 if not slow else .5 if self.pure == 'asym' else .05) else 'ref')
        else:
            lib, rng, level = who or (r.choice(ALL), r.randrange(2), r.choice(['wrap', 'wrap', 'back', 'back', 'ref']))
        if level == 'ref' and op not in ('sigkp', 'boxkp', 'sign', 'sopen', 'agree', 'foreign', 'seal', 'open', 'hash') or weak or (op in ('newsig', 'newbox')):
            level = 'wrap'
        if level == 'back' and op == 'agree' and any(len(x) != 32 for x in inp):
            level = 'wrap'
        a = list(inp)
        if level == 'wrap':
            f = {'sigkp': 'create_sig_keys_from_sec', 'boxkp': 'create_enc_keys_from_sec', 'newsig': 'create_sig_keys', 'newbox': 'create_enc_keys', 'sign': 'sign',
                 'sopen': 'sign_open', 'agree': 'compute_shared_key', 'foreign': 'compute_shared_key', 'seal': 'encrypt', 'open': 'decrypt', 'hash': 'sha512', 'rand': 'random_bytes'}[op]
            if op in ('seal', 'open'):
                a = [inp[2], inp[1], inp[0]]
            if op == 'sigkp' and len(inp[0]) > 32:
                level = 'back'                              # the wrapper takes a whole secret key here
        if level != 'wrap':
            f = {'sigkp': 'crypto_sign_keypair_not_random', 'boxkp': 'crypto_box_keypair_not_random', 'sign': 'crypto_sign', 'sopen': 'crypto_sign_open',
                 'agree': 'crypto_box_beforenm', 'foreign': 'crypto_box_beforenm', 'seal': 'crypto_box_afternm', 'open': 'crypto_box_open_afternm', 'hash': 'crypto_hash', 'rand': 'randombytes'}[op]
            if op in ('agree', 'foreign'):
                a = [inp[1], inp[0]]
            if op in ('seal', 'open'):
                a = list(inp)
        on = {'wrap': 'wrap', 'back': lib, 'ref': 'ref'}[level]
        ans = kid('pynacl' if self.pure else lib, rng).ask(op='call', on=on, f=f, args=[x if isinstance(x, int) else x.hex() for x in a])
        v = {'k': op, 'op': op, 'lib': '%s/%s' % (lib, level), 'inp': [0 if isinstance(x, int) else self.id(x) for x in inp],
             'il': [x if isinstance(x, int) else len(x) for x in inp], 'out': [], 'ol': [], 'tail': 0, 'weak': weak}
        out = None
        if 'r' in ans:
            if any(x.startswith('type:') for x in ans['r']):
                v['r'] = ans['r'][0]
            else:
                out = [bytes.fromhex(x) for x in ans['r']]
                v['r'], v['out'], v['ol'] = 'ok', [self.id(x) for x in out], [len(x) for x in out]
                if op == 'rand':            # 32 byte windows, here and there, that do not overlap
                    k, n = len(out[0]) // 32, len(out[0])
                    ws = sorted(set([0, k - 1] + r.sample(range(k), min(k, 12)))) if k else []
                    v['part'] = [self.id(out[0][32 * w:32 * w + 32] if w < k - 1 else out[0][n - 32:]) for w in ws]
                if op == 'sign':
                    v['tail'] = self.id(out[0][64:])
                if op == 'newsig':
                    v['tail'] = self.id(out[1][:32])
        else:
            x = ans['x']
            v['r'] = ('BadSig' if 'BadSignatureException' in x else 'BadEnc' if 'BadEncryptedDataException' in x else 'BadPeer' if 'BadPeer' in x
                      else 'Value' if 'ValueError' in x else x[0])
            if level == 'ref' and op in ('sopen', 'open'):
                v['r'] = 'BadSig' if op == 'sopen' else 'BadEnc'
        v['in'] = [x if isinstance(x, int) else x.hex()[:80] for x in inp]
        self.ev.append(v)
        return out if v['r'] == 'ok' else None

    def both(self, op, inp, **k):
        """The same call to one implementation and, often, to another."""
        if self.pure and (self.pure == 'asym' or op in ('seal', 'open', 'hash')):
            ls = ['back', 'ref']
            self.rnd.shuffle(ls)
            return [self.call(op, inp, level=l, **k) for l in ls][0]
        o = self.call(op, inp, **k)
        while self.rnd.random() < .45:
            self.call(op, inp, **k)
        return o

    def tamper(self, b):
        r = self.rnd
        k = r.randrange(6)
        if k <= 2 and b:
            n = r.choice([0, len(b) - 1, r.randrange(len(b)), min(len(b) - 1, r.randrange(80))])
            return b[:n] + bytes([b[n] ^ (1 << r.randrange(8))]) + b[n + 1:]
        if k == 3:
            return b[:r.choice([0, 1, 8, 15, 16, 17, 63, 64, max(0, len(b) - 1), r.randrange(len(b) + 1)])]
        if k == 4:
            return b + self.bytes(r.choice([1, 1, 16, 64]))
        return self.bytes(r.choice([0, 1, 15, 16, 17, 63, 64, 65, 200]))

    def sigkey(self):
        if not self.sig or self.rnd.random() < .15:
            seed = self.bytes(32)
            o = self.both('sigkp', [seed])
            if o:
                self.sig.append((seed, o[0], o[1]))
        return self.rnd.choice(self.sig) if self.sig else None

    def boxkey(self):
        if len(self.box) < 2 or self.rnd.random() < .15:
            sk = self.rnd.randbytes(32)
            o = self.both('boxkp', [sk])
            if o:
                self.box.append((o[1], o[0]))
        return self.rnd.choice(self.box) if self.box else None

    def msg(self):
        if self.msgs and self.rnd.random() < .3:
            return self.rnd.choice(self.msgs)
        n = self.rnd.choice(LENS) if self.rnd.random() < .8 else self.rnd.randrange(3000)
        if self.pure == 'big':
            n = self.rnd.choice([16351, 16352, 16353, 16416, 16417, 20000, 32736, 32737, 32800, 65536, self.rnd.randrange(16000, 50000)])
        elif self.pure and self.rnd.random() < .5:
            n = max(0, self.rnd.choice([64, 128, 192, 256, 384, 512, 640, 1024]) - self.rnd.randrange(-1, 34))
        elif self.pure:
            n %= 1100 if self.rnd.random() < .95 else 9000
        m = self.bytes(n)
        self.msgs.append(m)
        return m

    def nonce(self):
        if self.nonces and self.rnd.random() < .5:
            return self.rnd.choice(self.nonces)
        n = self.rnd.choice([self.rnd.randbytes(24), self.rnd.randrange(1, 70000).to_bytes(8, 'little') + bytes(16), bytes(24)])
        self.nonces.append(n)
        return n

    def key(self):
        if not self.keys or self.rnd.random() < .2:
            a, b = self.boxkey(), self.boxkey()
            if a and b:
                o = self.both('agree', [a[0], b[1]])
                if self.rnd.random() < .6:
                    self.call('agree', [b[0], a[1]])
                if o:
                    self.keys.append(o[0])
        return self.rnd.choice(self.keys) if self.keys else None

    def step(self):
        r = self.rnd
        op = r.choice(['sign', 'sign', 'sopen', 'sopen', 'sopen', 'seal', 'seal', 'open', 'open', 'open', 'hash', 'rand', 'newsig', 'newbox', 'badlen', 'weak', 'agree', 'foreign', 'regen', 'sweep', 'sweeps', 'edge'] if not self.pure
                      else ['seal', 'seal', 'open', 'open', 'hash'] if self.pure == 'big'
                      else ['seal', 'seal', 'open', 'open', 'open', 'open', 'hash', 'hash', 'rand', 'sweep', 'edge', 'edge'] if self.pure == 'sym'
                      else ['sign', 'sign', 'sopen', 'sopen', 'sopen', 'badlen', 'agree', 'agree', 'foreign', 'foreign', 'regen', 'sweeps'])
        if op == 'sign':
            k = self.sigkey()
            if k:
                m = self.msg()
                o = self.both('sign', [m, k[2]])
                if o:
                    self.signed.append((k[1], m, o[0]))
        elif op == 'sopen' and self.signed:
            pk, m, sm = r.choice(self.signed)
            c = r.randrange(5)
            if c <= 1:
                self.both('sopen', [sm, pk])
            elif c == 2:
                self.both('sopen', [sm, r.choice(self.sig)[1]])
            else:
                self.both('sopen', [self.tamper(sm), pk])
        elif op == 'seal':
            k = self.key()
            if k:
                m, n = self.msg(), self.nonce()
                o = self.both('seal', [m, n, k])
                if o:
                    self.sealed.append((k, n, m, o[0]))
        elif op == 'open' and self.sealed:
            k, n, m, c = r.choice(self.sealed)
            w = r.randrange(7)
            if w <= 2:
                self.both('open', [c, n, k])
            elif w == 3:
                self.both('open', [c, self.nonce(), k])
            elif w == 4:
                self.both('open', [c, n, r.choice(self.keys)])
            else:
                self.both('open', [self.tamper(c), n, k])
        elif op == 'hash':
            self.both('hash', [self.msg()])
        elif op == 'rand':
            n = r.choice([0, 1, 15, 16, 24, 32, 32, 64, 100, 256, 257, 1000, 4097, 65537, r.randrange(80000)])
            self.call('rand', [n])
        elif op == 'newsig':
            o = self.call('newsig', [])
            if o:
                self.sig.append((o[1][:32], o[0], o[1]))
                self.call('sigkp', [o[1][:32]])
        elif op == 'newbox':
            o = self.call('newbox', [])
            if o:
                self.box.append((o[1], o[0]))
                self.call('boxkp', [o[1]])
        elif op == 'badlen':
            n = r.choice([0, 1, 16, 31, 33, 64])
            if r.random() < .4:
                self.call('sigkp', [self.bytes(n)])
            elif r.random() < .5:
                self.call('boxkp', [self.bytes(n)])
            elif not self.pure:
                k = self.boxkey()
                if k:
                    self.call('agree', [k[0], self.bytes(n)] if r.random() < .5 else [self.bytes(n), k[1]])
        elif op == 'weak':
            k = self.boxkey()
            if k:
                self.call('agree', [k[0], r.choice([bytes(32), b'\x01' + bytes(31), bytes.fromhex('ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f')])], weak=True)
        elif op == 'agree':
            self.key()
        elif op == 'foreign':                               # any secret key, any public key
            p = 2 ** 255 - 19
            pk = r.choice([r.randbytes(32), b'\xff' * 32, r.randrange(p + 2, 2 ** 255).to_bytes(32, 'little'), (p - r.randrange(2, 40)).to_bytes(32, 'little'),
                           r.randrange(2, 40).to_bytes(32, 'little'), (r.randrange(2 ** 248) | (0xff << 248)).to_bytes(32, 'little')])
            sk = r.choice([r.randbytes(32), r.randbytes(32), bytes(32), b'\xff' * 32, r.randrange(1, 300).to_bytes(32, 'little')])
            if r.random() < .4:                             # ... such that the point agreed on has a given coordinate
                t, o = r.choice(small())
                n = int.from_bytes(sk, 'little') & (2 ** 255 - 8) | 2 ** 254
                pk = ladder(pow(n, -1, o), t).to_bytes(32, 'little')
            self.both('foreign', [sk, pk])
            self.call('foreign', [sk, pk])
        elif op == 'edge':
            k = self.key()
            if k:
                n = self.nonce()
                m = poly_edge(r, k, n)
                o = self.both('seal', [m, n, k])
                if o:
                    self.both('open', [o[0], n, k])
        elif op == 'sweep':                                 # every byte of a short box altered
            k = self.key()
            if k:
                m, n = self.bytes(r.choice([0, 1, 7, 16])), self.nonce()
                o = self.call('seal', [m, n, k])
                if o:
                    for j in range(len(o[0])):
                        self.call('open', [flip(o[0], j, r.randrange(8)), n, k], level='back')
                    for j in sorted(r.sample(range(24), 6)):
                        self.call('open', [o[0], flip(n, j, r.randrange(8)), k], level='back')
                    for j in sorted(r.sample(range(32), 6)):
                        self.call('open', [o[0], n, flip(k, j, r.randrange(8))], level='back')
        elif op == 'sweeps':                                # bytes of a signature and of the signed message altered
            k = self.sigkey()
            if k:
                m = self.bytes(r.choice([0, 1, 40]))
                o = self.call('sign', [m, k[2]])
                if o:
                    for j in sorted(r.sample(range(len(o[0])), 8 if self.pure else 20)):
                        self.call('sopen', [flip(o[0], j, r.randrange(8)), k[1]], level='back')
                    for c in (1, r.randrange(2, 15)):       # the same number, not reduced by the group's order
                        n = int.from_bytes(o[0][32:64], 'little') + c * ORDERS[0]
                        self.call('sopen', [o[0][:32] + n.to_bytes(32, 'little') + o[0][64:], k[1]], level='back')
        elif op == 'regen' and self.sig:
            k = r.choice(self.sig)
            self.both('sigkp', [k[0]])


# ---- values at the edges of the arithmetic, reached through the public functions by choosing their inputs
P255, P130 = 2 ** 255 - 19, 2 ** 130 - 5
ORDERS = (2 ** 252 + 27742317777372353535851937790883648493, 2 ** 253 - 55484635554744707071703875581767296995)     # curve, twist


def ladder(k, u):
    """u-coordinate of k times the point with u-coordinate u (any k; 0 for the neutral element)."""
    p = P255
    a, b, c, d = 1, 0, u, 1                                 # (a:b) = O, (c:d) = P
    for i in range(k.bit_length() - 1, -1, -1):
        if k >> i & 1:
            a, b, c, d = c, d, a, b
        s, t, v, w = a + b, a - b, c + d, c - d
        ss, tt, x, y = s * s % p, t * t % p, w * s % p, v * t % p
        c, d = (x + y) ** 2 % p, u * (x - y) ** 2 % p
        e = ss - tt
        a, b = ss * tt % p, e * (ss + 121665 * e) % p
        if k >> i & 1:
            a, b, c, d = c, d, a, b
    return a * pow(b, p - 2, p) % p


SMALL = []


def small():
    """u-coordinates close to 0 and p that belong to points of prime order, with that order."""
    if not SMALL:
        for t in list(range(2, 60)) + [P255 - i for i in range(2, 30)]:
            for o in ORDERS:
                if ladder(o + 1, t) == t and ladder(o, t) == 0:
                    SMALL.append((t, o))
    return SMALL


def rotl(x, n):
    return (x << n | x >> (32 - n)) & 0xffffffff


def salsa(key, inp, h):
    import struct
    k, c, n = struct.unpack('<8I', key), struct.unpack('<4I', b'expand 32-byte k'), struct.unpack('<4I', inp)
    x = x0 = [c[0], *k[:4], c[1], *n, c[2], *k[4:], c[3]]
    x = list(x)
    for i in range(20):
        for j in range(4):
            q = [(5 * j + 4 * m) % 16 for m in range(4)] if i % 2 == 0 else [5 * j, 4 * j + (j + 1) % 4, 4 * j + (j + 2) % 4, 4 * j + (j + 3) % 4]
            for m, r in ((1, 7), (2, 9), (3, 13), (0, 18)):
                x[q[m]] ^= rotl((x[q[(m + 3) % 4]] + x[q[(m + 2) % 4]]) & 0xffffffff, r)
    if h:
        return struct.pack('<8I', x[0], x[5], x[10], x[15], *x[6:10])
    return struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(x, x0)])


def stream(key, nonce, n):
    sub = salsa(key, nonce[:16], True)
    out = b''
    for i in range(n // 64 + 1):
        out += salsa(sub, nonce[16:] + i.to_bytes(8, 'little'), False)
    return out[:n]


def poly_edge(rnd, key, nonce):
    """A message whose authenticator's sum ends at a value next to 0, to 2^130 - 5 or to a carry into 2^128."""
    blocks = rnd.randrange(2, 6)
    ks = stream(key, nonce, 32 + 16 * blocks)
    r = int.from_bytes(ks[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(ks[16:32], 'little')
    t = rnd.choice([0, 1, 2, 3, 4, 5, P130 - 1, P130 - 2, 2 ** 128 - 1, 2 ** 128, 2 ** 129, 2 ** 128 - s, 2 ** 128 - s - 1, 3 * 2 ** 128 - s, 255, 256]) % P130
    want = t * pow(r, P130 - 2, P130) % P130
    while True:
        h, c = 0, b''
        for _ in range(blocks - 1):
            b = rnd.randbytes(16)
            h = (h + int.from_bytes(b, 'little') + 2 ** 128) * r % P130
            c += b
        last = (want - h - 2 ** 128) % P130
        if last < 2 ** 128:
            c += last.to_bytes(16, 'little')
            return bytes(a ^ b for a, b in zip(c, ks[32:]))


def flip(b, n, bit):
    return b[:n] + bytes([b[n] ^ (1 << bit)]) + b[n + 1:]


def crypto(loop, item):
    h = Hist(item['seed'], item.get('pure'))
    bad = []
    try:
        while item.get('many') and len(h.ev) < item['n']:    # a great many random bytes from one process
            who = (*item['many'], 'wrap')
            h.call('rand', [32], who=who)
            if h.rnd.random() < .02:
                h.call(h.rnd.choice(['newsig', 'newbox']), [], who=who)
        while len(h.ev) < item['n']:
            h.step()
    except Gone as g:
        KIDS.clear()
        bad.append([len(h.ev), 'lib.died', '%s; last call: %s' % (g, json.dumps(h.ev[-1:])[:300])])
    with open(item['out'], 'w') as f:
        json.dump({'ev': h.ev}, f)
    return bad
