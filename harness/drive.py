"""Drives real sessions (imported from /repo) step by step and compares every step with the outcome
the specification prescribes.  Only public observables are used."""
import asyncio
import os
import random
import signal
import sys
import zlib

REPO = os.environ.get('SALT_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import saltchannel
assert os.path.realpath(saltchannel.__file__).startswith(os.path.realpath(REPO) + os.sep), saltchannel.__file__
from saltchannel.channel import ByteChannel
from saltchannel.exceptions import ComException, BadPeer, NoSuchServerException, TimeException
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession
from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.util.key_pair import KeyPair
from saltchannel.util.time import TimeKeeper, TimeChecker, NullTimeKeeper, NullTimeChecker
import saltchannel.util as sutil

from concrete import Concrete, key
from vloop import idle


class Hang(Exception):
    pass


class TransportDown(ComException):
    pass


class DownReset(TransportDown, ConnectionResetError):
    pass


class DownTimeout(TransportDown, TimeoutError):
    pass


class DownEof(TransportDown, EOFError):
    pass


class DownPipe(TransportDown, BrokenPipeError):
    pass


_DOWN = [TransportDown, DownReset, DownTimeout, DownEof, DownPipe]
_ndown = [0]


def down_seed(seed):
    _ndown[0] = zlib.crc32(str(seed).encode())


def down(text):
    """The transport fails: always a ComException, often a more specific one."""
    _ndown[0] += 1
    return _DOWN[_ndown[0] % len(_DOWN)](text)


class KeeperOps:
    def __init__(self, first):
        self.f, self.now = first, 0

    def get_first_time(self):
        return self.f

    def get_time(self):
        return self.now


class Keeper(KeeperOps, TimeKeeper):
    pass


class CheckerOps:
    def __init__(self):
        self.calls, self.refuse = [], False

    def _see(self, what, t):
        self.calls.append((what, int(t)))
        if self.refuse:
            raise TimeException('refused by checker')

    def report_first_time(self, time):
        self._see('first', time)

    def check_time(self, time):
        self._see('time', time)


class Checker(CheckerOps, TimeChecker):
    pass


MADE = [0]


def derived(plain, ops, base):
    """Now and then a class of its own, derived from the library's null keeper or checker."""
    MADE[0] += 1
    if MADE[0] % 16 > 1:
        return plain
    try:
        return type(base)('Own', (ops, base), {})
    except Exception:
        return plain


class TestChannel(ByteChannel):
    """The transport under the sessions: hands out what the harness feeds, records what is written."""

    def __init__(self):
        super().__init__()
        self.inbox = []
        self.waiter = None
        self.writes = []          # (messages, is_last)
        self.nwrites = 0
        self.fail_at = None       # (ordinal, 'lost'|'sent')
        self.gate = None          # optional asyncio.Event-like the write waits for

    @property
    def waiting(self):
        return self.waiter is not None and not self.waiter.done()

    async def read(self):
        if not self.inbox:
            self.waiter = asyncio.get_running_loop().create_future()
            try:
                await self.waiter
            finally:
                self.waiter = None
        m = self.inbox.pop(0)
        if isinstance(m, BaseException):
            raise m
        return m

    async def write(self, msg, *args, is_last=False):
        k = self.nwrites
        self.nwrites += 1
        f = self.fail_at[1] if self.fail_at and self.fail_at[0] == k else None
        if f == 'lost':
            raise down('write failed')
        self.writes.append((tuple(bytes(m) for m in (msg,) + args), bool(is_last)))
        if self.gate is not None:
            await self.gate.wait()
        if f == 'sent':
            raise down('write failed')

    def feed(self, m):
        self.inbox.append(m)
        if self.waiting:
            self.waiter.set_result(None)


def exc_name(e):
    if isinstance(e, NoSuchServerException):
        return 'NoSuch'
    if isinstance(e, TimeException):
        return 'Time'
    if isinstance(e, BadPeer):
        return 'BadPeer'
    if isinstance(e, ComException):
        return 'Com'
    return 'OTHER:%s:%s' % (type(e).__name__, str(e)[:120])


class End:
    """One real endpoint."""

    OLD = None

    def __init__(self, role, cfg, conc, chan=None):
        self.role, self.cfg, self.conc = role, cfg, conc
        self.ch = chan or TestChannel()
        self.task = None
        self.op = None
        timing = cfg['ct'] if role == 'c' else cfg['st']
        self.timing = timing
        self.keeper = derived(Keeper, KeeperOps, NullTimeKeeper)(1 if timing else 0)
        self.checker = derived(Checker, CheckerOps, NullTimeChecker)() if cfg['chk'] == 'rec' or cfg['rej'][0] == role else None
        k = conc
        if role == 'c' and cfg['kind'] == 'a1':
            self.below = self.top(self.ch)
            self.ask(cfg['addr'])
            return
        me, eph = ('cS', 'cE') if role == 'c' else ('sS', 'sE')
        eph = self.OLD or eph
        cls = SaltClientSession if role == 'c' else SaltServerSession
        s = cls(KeyPair(sec=k.sig[me][0], pub=k.sig[me][1]), self.top(self.ch), **self.new_args())
        s.enc_keypair = KeyPair(sec=k.enc[eph][0], pub=k.enc[eph][1])
        if timing or self.checker:
            s.time_keeper = self.keeper
        if self.checker:
            s.time_checker = self.checker
        if role == 'c':
            if cfg['b4']:                # otherwise the default
                s.buffer_M4 = True
            if cfg['want'] != 'none':
                s.wanted_server_sig_key = k.pub(cfg['want'])
        else:
            if cfg['b2']:
                s.buffer_m2 = True
            if cfg['a2'] != 'def':
                a2 = A2Packet(src_buf=k.expected({'t': 'A2', 'nss': False, 'prot': cfg['a2'], 'x': ''}))
                s.a2 = a2
        self.s = s

    def ask(self, addr):
        """The A1 client that will ask for addr."""
        self.addr = addr
        s = A1ClientSession(self.below, **self.new_args())
        if addr != 'any':
            s.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
            s.a1.data.AddressSize = 32
            s.a1.Address = self.conc.pub(addr)
        self.s = s

    async def renew(self, addr):
        if addr != self.addr:            # otherwise the same client object asks again
            self.ask(addr)

    def new_args(self):
        return {}

    def top(self, ch):
        """The channel the session is given."""
        return ch

    def set_tick(self, tick):
        self.keeper.now = self.conc.time(tick, self.role) if self.timing else 0

    def begin(self, op, *a, **kw):
        async def co():
            s = self.s
            if op == 'handshake':
                return await s.handshake()
            if op == 'a1a2':
                return await s.do_a1a2()
            if op == 'read':
                return await s.app_channel.read()
            return await s.app_channel.write(*a, **kw)
        self.op = op
        self.task = asyncio.ensure_future(co())

    async def settle(self):
        """Run until the operation is finished or waits for the transport."""
        for i in range(400):
            if self.task.done() or self.ch.waiting:
                if self.ch.waiting:
                    await idle()
                return
            await asyncio.sleep(0)
        for i in range(3000):
            if self.task.done() or self.ch.waiting:
                return
            await asyncio.sleep(0.01)
        raise Hang('operation neither finished nor waiting for input')

    def outcome(self):
        """-> (kind, value)"""
        if not self.task.done():
            return ('wait', None)
        if self.task.cancelled():
            return ('cancelled', None)
        e = self.task.exception()
        if e is not None:
            return (exc_name(e), None)
        v = self.task.result()
        return ('data', v) if self.op == 'read' else ('ret', v)

    async def kill(self):
        if self.task is not None and not self.task.done():
            self.task.cancel()
            try:
                await self.task
            except BaseException:
                pass
        elif self.task is not None and not self.task.cancelled():
            self.task.exception()

    # -- session level observables
    def ident(self):
        return getattr(self.s, 'client_sig_key', None)


def lend(rnd, ms, p=.3):
    """Sometimes the caller's messages are buffers it uses again once the write has returned.  -> (messages to pass, call afterwards)"""
    if rnd.random() >= p:
        return ms, lambda: None
    bs = [bytearray(m) for m in ms]

    def wipe():
        for b in bs:
            b[:] = b'\xa5' * len(b)
    return bs, wipe


def flag(last, say):
    """The keyword arguments of a write: is_last is left out sometimes when it is not set."""
    return {'is_last': last} if last or say else {}


class OldEnd(End):
    def __init__(self, role, cfg, conc, chan=None):
        self.OLD = role + 'O'
        super().__init__(role, cfg, conc, chan)


OLDCFG = dict(kind='v2', want='none', b2=False, b4=False, ct=True, st=True, chk='null', rej=['', ''], ident='cS', sident='sS', addr='any', a2='def')


def _m(t, **k):
    return dict(k, t=t, x='')


def _sig(by, pre, a, b):
    return dict(by=by, pre=pre, a=a, b=b)


async def past(conc):
    """The older sessions of the specification (OldM1, OldM2, OldPkts, OldSigs), run for real: the two peers with each other, the
    server with the attacker, the client with the attacker.  All are honest runs.  -> what went wrong or None"""
    m1 = _m('M1', time=1, key='cO', want='none')
    m2 = _m('M2', time=1, key='sO', nss=False)
    x1, x2 = dict(m1, key='xE'), dict(m2, key='xE')
    data = conc.data(['a', 1])

    def sealed(dh, n, b, last=False):
        return conc.enc_any(_m('E', last=last, dh=dh, n=n, body=b))

    async def turn(e, feed=None):
        if feed is not None:
            e.ch.feed(feed)
        await e.settle()
        if e.outcome()[0] not in ('wait', 'ret', 'data'):
            raise Past('%s: %s' % (e.role, e.outcome()))
        ms = [m for w in e.ch.writes for m in w[0]]
        e.ch.writes.clear()
        return ms
    ends = []

    def end(role):
        e = OldEnd(role, OLDCFG, conc)
        e.set_tick(2)
        ends.append(e)
        e.begin('handshake')
        return e
    try:
        c, s = end('c'), end('s')
        for m in await turn(s, (await turn(c))[0]):
            out = await turn(c, m)
        await turn(s, out[0])
        for a, b in ((c, s), (s, c)):
            a.set_tick(3)
            a.begin('write', data, **({'is_last': True} if a is s else {}))
            (m,) = await turn(a)
            b.begin('read')
            await turn(b, m)
            if b.outcome() != ('data', data):
                raise Past('read %r' % (b.outcome(),))
        s = end('s')
        await turn(s, conc.enc_any(x1))
        await turn(s, sealed(['xE', 'sO'], 1, _m('M4', time=2, sk='xS', sig=_sig('xS', '2', x1, m2))))
        c = end('c')
        await turn(c)
        await turn(c, conc.enc_any(x2))
        await turn(c, sealed(['cO', 'xE'], 2, _m('M3', time=2, sk='xS', sig=_sig('xS', '1', m1, x2))))
        for e in (s, c):
            if e.outcome()[0] != 'ret':
                raise Past('%s: %s' % (e.role, e.outcome()))
    except (Past, IndexError, ValueError) as x:
        return '%s: %s' % (type(x).__name__, x)
    finally:
        for e in ends:
            await e.kill()


class Past(Exception):
    pass


def uses_past(o):
    return o['a'] == 'inj' and o['m'].get('t') == 'E' and any('"%sO"' % e in key(o['m']) for e in 'cs')


class Replay:
    """Replays one behaviour of the specification."""

    def __init__(self, cfg, steps, seed):
        self.cfg, self.steps, self.seed = cfg, steps, seed
        down_seed(seed)
        near = 'sS'
        if any(o['a'] in ('inj', 'dlv') and o['e'] == 'c' and o['m'].get('t') == 'E' and o['m']['body'].get('sk') == 'xS' for o in steps):
            near = 'xS'
        self.conc = Concrete(seed, near)
        self.bad = []           # (step index, facet, text)
        self.stopped = False

    def diff(self, i, facet, text):
        self.bad.append((i, facet, text))

    def make(self, role):
        return End(role, self.cfg, self.conc)

    async def setup(self):
        """Creates both endpoints and starts the server.  -> ready to take steps"""
        self.ends = {}
        if any(uses_past(o) for o in self.steps):
            text = await past(self.conc)
            if text:
                self.diff(-1, 'reject.hs', 'an earlier session with the same keys fails: ' + text)
                return False
        for role in 'cs':
            try:
                self.ends[role] = self.make(role)
            except Hang as h:
                self.diff(-1, 'hang', str(h))
                return False
            except Exception as e:
                self.diff(-1, 'reject.hs', 'a %s session cannot be created: %s: %s' % (role, type(e).__name__, e))
                return False
        self.fly = {'c': [], 's': []}
        await self.prior()
        sv = self.ends['s']
        sv.begin('handshake')
        await sv.settle()
        if sv.outcome()[0] != 'wait' or sv.ch.writes:
            self.diff(-1, 'reject.hs', 'server handshake did not wait for the first message: %r' % (sv.outcome(),))
            return False
        return True

    async def prior(self):
        """Sometimes a session object is started again after a first attempt that got no further than its first message: an A1
        question, a message that was refused, a question for another server, a lost connection.  That leaves no trace."""
        rnd = random.Random('prior/%s' % self.seed)
        for role in 'cs':
            x = rnd.random()
            what = rnd.choice(['nss', 'bad', 'lost', 'a1'])
            if x >= .12 or (role == 'c' and (self.cfg['kind'] == 'a1' or what == 'a1')):
                continue
            end, c = self.ends[role], self.conc
            end.set_tick(2)
            end.begin('handshake')
            await end.settle()
            if what == 'nss':
                m = _m('M1', time=1, key='xE', want='xS') if role == 's' else _m('M2', time=0, key='zero', nss=True)
            elif what == 'bad':
                m = _m('G', g=rnd.choice(['empty', 'one', 'two', 'rand40']))
            else:
                m = dict(t='A1', at=0, addr='none', x='')
            if not end.task.done():
                end.ch.feed(down('connection lost') if what == 'lost' else c.enc_any(m))
                await end.settle()
            ok = end.task.done() and end.outcome()[0] == {'nss': 'NoSuch', 'bad': 'BadPeer', 'lost': 'Com', 'a1': 'ret'}[what]
            if not ok:           # another behaviour's business: start afresh
                await end.kill()
                self.ends[role] = end = self.make(role)
            end.ch.writes.clear()
            end.ch.nwrites = 0
            if end.checker:
                end.checker.calls.clear()

    async def teardown(self):
        for e in self.ends.values():
            await e.kill()

    async def run(self):
        i = -1
        try:
            if await self.setup():
                for i, o in enumerate(self.steps):
                    await self.step(i, o)
                    if self.stopped:
                        break
        except Hang as h:
            self.diff(i, 'hang', str(h))
        finally:
            await self.teardown()

    async def step(self, i, o):
        a, e = o['a'], o['e']
        end, other = self.ends[e], ('s' if e == 'c' else 'c')
        ch, r, conc = end.ch, o['r'], self.conc
        if a == 'drp':
            if self.fly[e]:
                self.fly[e].pop(0)
            return
        ch.writes.clear()
        ch.nwrites, ch.fail_at = 0, None
        if end.checker:
            end.checker.calls.clear()
            end.checker.refuse = r['k'] == 'Time'
        if a == 'hsf':
            ch.fail_at = (int(o['f']) - 1, 'lost')
        elif a == 'wr' and o['f']:
            ch.fail_at = (0, o['f'])
        # ticks: handshake messages use tick 2, the k-th write tick 3 + k
        end.set_tick(2)
        if a == 'start' or (a == 'hsf' and o['m']['t'] == 'NIL'):
            end.begin('a1a2' if self.cfg['kind'] == 'a1' else 'handshake')
        elif a == 'retry':
            end.begin('a1a2' if self.cfg['kind'] == 'a1' and e == 'c' else 'handshake')
        elif a == 'again':
            sv = self.ends['s']
            sv.begin('handshake')
            await sv.settle()
            if sv.outcome()[0] != 'wait':
                self.diff(i, 'reject.a1', 'a server session that answered one question does not wait for the next: %r' % (sv.outcome(),))
                self.stopped = True
                return
            await end.renew(o['f'])
            end.begin('a1a2')
        elif a in ('dlv', 'inj', 'hsf'):
            if end.op == 'handshake' and not end.task.done() or end.op == 'a1a2':
                pass
            else:
                end.begin('read')
                await end.settle()
                if end.task.done():
                    self.result(i, o, end)
                    return
            m = self.deliver_bytes(o, e)
            ch.feed(m)
        elif a == 'rdq':
            end.begin('read')
        elif a == 'crd':
            end.begin('read')
            await end.settle()
            if end.task.done():
                self.diff(i, 'data', 'a read returned although nothing was delivered: %r' % (end.outcome(),))
                self.stopped = True
                return
            end.task.cancel()
            try:
                await end.task
            except asyncio.CancelledError:
                pass
            except Exception as x:
                self.diff(i, 'exc.class', 'cancelled read raised %r' % (x,))
            return
        elif a == 'wr':
            end.nw = getattr(end, 'nw', 0) + 1
            end.set_tick(2 + end.nw)
            end.begin('write', *[conc.data(d) for d in o['ds']], **flag(o['last'], zlib.crc32(('%s/%d' % (self.seed, i)).encode()) % 2))
        await end.settle()
        self.result(i, o, end)

    def deliver_bytes(self, o, e):
        m = o['m']
        if o['a'] in ('dlv', 'hsf') and self.fly[e]:
            return self.fly[e].pop(0)
        if o['a'] == 'inj' and o['ph0'] in ('w1', 'w2', 'w3', 'w4', 'w9') and self.fly[e] and self.fly[e][0][:1] != b'\x06':
            self.fly[e].pop(0)
        if m['t'] == 'EOF':
            return down('connection lost')
        return self.conc.enc_any(m)

    # ------------------------------------------------------------ comparison
    def result(self, i, o, end):
        a, e, r, conc, ch = o['a'], o['e'], o['r'], self.conc, end.ch
        other = 's' if e == 'c' else 'c'
        kind, val = end.outcome()
        want = r['k']
        plane = 'a1' if self.cfg['kind'] == 'a1' else ('hs' if end.op in ('handshake', 'a1a2') else 'data')
        raised_want = want in ('BadPeer', 'NoSuch', 'Time', 'Com')
        raised = kind in ('BadPeer', 'NoSuch', 'Time', 'Com') or kind.startswith('OTHER')
        writes = list(ch.writes)
        tolerant = False
        if kind != want:
            if kind.startswith('OTHER'):
                self.diff(i, 'exc.family', '%s: expected %s, got %s' % (a, want, kind))
                self.stopped = True
                if not raised_want:
                    self.diff(i, 'reject.' + plane, '%s: expected %s, got %s' % (a, want, kind))
            elif raised_want and not raised:
                self.diff(i, 'accept.%s.%s' % (e, plane), '%s: expected %s, got %s %r' % (a, want, kind, val))
                self.stopped = True
            elif not raised_want and raised:
                if r['opt'] and kind == 'BadPeer':
                    self.stopped = True      # equally correct
                    tolerant = True
                else:
                    self.diff(i, 'reject.' + plane, '%s: expected %s, got %s' % (a, want, kind))
                    self.stopped = True
            elif raised_want and raised:
                if r['opt'] and kind == 'BadPeer':
                    tolerant = True
                    self.stopped = True
                elif want == 'Com':
                    pass                     # any ComException will do
                else:
                    self.diff(i, 'exc.class', '%s: expected %s, got %s' % (a, want, kind))
            else:
                self.diff(i, 'hang' if kind == 'wait' else 'early', '%s: expected %s, got %s' % (a, want, kind))
                self.stopped = True
        # ---- what was put on the transport
        exp = o['w']
        failing = raised_want and want != 'NoSuch' and a != 'wr'
        if tolerant:
            exp = exp[:len(writes)]
        n = max(len(exp), len(writes))
        flat_exp = [m for w in exp for m in w['ms']]
        flat_act = [m for w in writes for m in w[0]]
        for m, b in zip(flat_exp, flat_act):
            conc.real.setdefault(key(m), b)
        for j, m in enumerate(flat_exp):
            if j >= len(flat_act):
                if not failing and not tolerant:
                    self.diff(i, 'wire.missing', '%s: message %d of %d not sent: %s' % (a, j + 1, len(flat_exp), key(m)[:300]))
                break
            for f in conc.explain(m, flat_act[j]):
                self.diff(i, 'wire.' + f, '%s: message %d differs from the specification in: %s\n  spec  %s\n  bytes %s\n  sent  %s' % (
                    a, j + 1, f, key(m)[:400], conc.expected(m)[:200].hex(), flat_act[j][:200].hex()))
        if len(flat_act) > len(flat_exp):
            self.diff(i, 'wire.extra', '%s: %d message(s) sent that the specification does not send: %s' % (
                a, len(flat_act) - len(flat_exp), flat_act[len(flat_exp)][:200].hex()))
        if len(flat_act) == len(flat_exp):
            if [len(w['ms']) for w in exp] != [len(w[0]) for w in writes]:
                self.diff(i, 'wire.group', '%s: grouping %r, expected %r' % (a, [len(w[0]) for w in writes], [len(w['ms']) for w in exp]))
            elif [w['last'] for w in exp] != [w[1] for w in writes]:
                self.diff(i, 'wire.lastarg', '%s: is_last %r, expected %r' % (a, [w[1] for w in writes], [w['last'] for w in exp]))
        self.fly[other].extend(flat_act)
        if len(flat_act) < len(flat_exp) and (failing or tolerant):
            self.stopped = True              # gave up before writing: equally correct, but what is in flight now differs
        # ---- time checks
        if end.checker:
            calls = []
            for c in end.checker.calls:
                if not calls or calls[-1] != c:
                    calls.append(c)
            expc = [('first', conc.first(t)) if k in ('M1', 'M2') else ('time', conc.time(t, other)) for k, t in o['c']]
            if want in ('BadPeer', 'Com') or tolerant:
                okc = calls == expc[:len(calls)]
            else:
                okc = calls == expc
            if not okc:
                self.diff(i, 'chk', '%s: time checks %r, expected %r' % (a, calls, expc))
        if self.stopped:
            self.after(i, o, end)
            return
        # ---- results
        if want == 'data' and kind == 'data':
            d = conc.data(r['d'])
            if not isinstance(val, (bytes, bytearray)) or bytes(val) != d:
                self.diff(i, 'data', '%s: read returned %r.. (%s bytes), expected %r (%d bytes)' % (
                    a, bytes(val)[:60] if isinstance(val, (bytes, bytearray)) else val, len(val) if hasattr(val, '__len__') else '?', d[:60], len(d)))
            if a in ('dlv', 'inj'):
                l = end.s.app_channel.last
                if bool(l) != r['last']:
                    self.diff(i, 'last', '%s: last is %r after reading a packet whose flag is %r' % (a, l, r['last']))
        self.after(i, o, end)

    def after(self, i, o, end):
        """Session level observables after a step."""
        conc, s = self.conc, end.s
        if end.role == 's':
            ident = getattr(s, 'client_sig_key', None)
            if o['ph'] in ('open', 'over') and not self.stopped:
                if ident is None or bytes(ident) != conc.pub(o['peer']):
                    self.diff(i, 'ident', 'client_sig_key is %r, expected the key of %s' % (ident, o['peer']))
            elif o['ph'] not in ('open', 'over') and ident:
                self.diff(i, 'ident', 'client_sig_key is set (%s) although the handshake did not complete' % bytes(ident).hex())
        if o['ph'] == 'open' and not self.stopped and getattr(s, 'session_key', None):
            if bytes(s.session_key) != conc.shared(o['dh']):
                self.diff(i, 'skey', 'session_key is not the key agreed from the two ephemeral keys')
        if o['ph'] == 'open' and end.role == 'c' and not self.stopped:
            m3 = getattr(s, 'm3', None)
            k = getattr(m3, 'ServerSigKey', None) if m3 is not None else None
            if isinstance(k, bytes) and k != conc.pub(o['peer']):
                self.diff(i, 'ident', 'the client reports another server key than the one that signed')
        if o['ph'] == 'done' and end.role == 's':
            if getattr(s, 'app_channel', None) is not None or getattr(s, 'enc_channel', None) is not None:
                self.diff(i, 'a1open', 'an A1/A2 exchange opened a channel')
            if not getattr(s, 'is_done', True):
                self.diff(i, 'a1open', 'is_done is not set after an A1/A2 exchange')
        if o['ph'] == 'done' and end.role == 'c' and not self.stopped:
            a2 = s.a2
            ps = conc.prot(o['m']['prot'])
            got = [(bytes(p.P1), bytes(p.P2)) for p in a2.Prot] if ps else ([] if a2.data.Count == 0 else ['?'])
            if bool(a2.data.Header.NoSuchServer) != o['m']['nss'] or a2.data.Count != len(ps) or got != ps or not a2.data.Header.LastFlag:
                self.diff(i, 'a2', 'the A2 fields obtained differ from the ones sent: %r, %r' % (got[:3], ps[:3]))


class Watchdog:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def h(*_):
            raise Hang('no progress for %d s' % self.secs)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.secs)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def replay_one(loop, cfg, steps, seed, r=None):
    r = r or Replay(cfg, steps, seed)
    try:
        with Watchdog(60):
            loop.run_until_complete(r.run())
    except Hang as h:
        r.diff(-1, 'hang', str(h))
    return r.bad
