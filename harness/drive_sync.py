"""Drives real sessions through the synchronous API: every endpoint lives in a thread of its own."""
import asyncio
import queue
import threading
import time

import drive
from drive import End, Hang, Replay, down, exc_name
from saltchannel.channel import ByteChannel
from vloop import VLoop

LIMIT = 60


class SyncChan(ByteChannel):
    """Transport that blocks the calling thread ('block', as SocketChannel does) or suspends the coroutine ('aloop')."""

    def __init__(self, mode):
        self.mode = mode
        self.cv = threading.Condition()
        self.inbox, self.writes = [], []
        self.waiting = False
        self.waiter = None
        self.nwrites, self.fail_at = 0, None
        self.loops = []          # event loops this transport was used on

    def ran(self):
        l = asyncio.get_running_loop()
        if l not in self.loops:
            self.loops.append(l)

    def _pop(self):
        m = self.inbox.pop(0)
        if isinstance(m, BaseException):
            raise m
        return m

    def read_sync(self):
        with self.cv:
            while not self.inbox:
                self.waiting = True
                self.cv.notify_all()
                self.cv.wait()
            self.waiting = False
            return self._pop()

    async def read(self):
        self.ran()
        if self.mode == 'block':
            return self.read_sync()
        with self.cv:
            if not self.inbox:
                loop = asyncio.get_running_loop()
                fut = loop.create_future()
                self.waiter = (loop, fut)
                self.waiting = True
                self.cv.notify_all()
            else:
                fut = None
        if fut is not None:
            await fut
        with self.cv:
            self.waiter = None
            return self._pop()

    def write_sync(self, msg, *args, is_last=False):
        with self.cv:
            k = self.nwrites
            self.nwrites += 1
            f = self.fail_at[1] if self.fail_at and self.fail_at[0] == k else None
            if f == 'lost':
                raise down('write failed')
            self.writes.append((tuple(bytes(m) for m in (msg,) + args), bool(is_last)))
            if f == 'sent':
                raise down('write failed')

    async def write(self, msg, *args, is_last=False):
        self.ran()
        self.write_sync(msg, *args, is_last=is_last)
        if self.mode == 'aloop':
            await asyncio.sleep(0)

    def feed(self, m):
        with self.cv:
            self.inbox.append(m)
            self.waiting = False
            if self.waiter:
                loop, fut = self.waiter
                self.waiter = None
                loop.call_soon_threadsafe(lambda: fut.done() or fut.set_result(None))
            self.cv.notify_all()


class Job:
    def __init__(self):
        self.fin = False
        self.exc = self.val = None

    def done(self):
        return self.fin

    def cancelled(self):
        return False

    def exception(self):
        return self.exc

    def result(self):
        if self.exc is not None:
            raise self.exc
        return self.val


class SyncEnd(End):
    """way: '<channel mode>/<thread kind>'"""

    def __init__(self, role, cfg, conc, way='block/noloop'):
        mode, self.kind = way.split('/')
        self.ch = SyncChan(mode)
        self.jobs = queue.Queue()
        self.boot = None
        self.task = None
        self.op = None
        self.thread = threading.Thread(target=self._work, args=(role, cfg, conc), daemon=True)
        self.ready = threading.Event()
        self.thread.start()
        if not self.ready.wait(LIMIT):
            raise Hang('the session cannot be created')
        if self.boot is not None:
            raise Broken(self.boot)

    def _work(self, role, cfg, conc):
        loop = None
        try:
            if self.kind == 'loop':
                loop = VLoop()
                asyncio.set_event_loop(loop)
            elif self.kind == 'afterrun':
                asyncio.run(asyncio.sleep(0))
            elif self.kind in ('explicit', 'explicit2'):
                if self.kind == 'explicit2':         # the thread has another loop as well
                    self.other = asyncio.new_event_loop()
                    asyncio.set_event_loop(self.other)
                loop = self.loop = VLoop()
            ch, jobs, kind = self.ch, self.jobs, self.kind
            try:
                End.__init__(self, role, cfg, conc, chan=ch)
            except BaseException as e:
                self.boot = e
            self.ready.set()
            while True:
                j = jobs.get()
                if j is None:
                    break
                job, f = j
                try:
                    job.val = f()
                except BaseException as e:
                    job.exc = e
                with ch.cv:
                    job.fin = True
                    ch.cv.notify_all()
        finally:
            self.ready.set()
            for l in {loop, getattr(self, 'other', None), getattr(getattr(self, 's', None), 'loop', None)} - {None}:
                if not l.is_running() and not l.is_closed():
                    l.close()

    def new_args(self):
        return {'loop': self.loop} if self.kind.startswith('explicit') else {}

    def begin(self, op, *a, **kw):
        s = self.s
        f = {'handshake': lambda: s.handshake_sync(), 'a1a2': lambda: s.do_a1a2_sync(), 'read': lambda: s.app_channel.read_sync(),
             'write': lambda: s.app_channel.write_sync(*a, **kw)}[op]
        self.op = op
        self.task = Job()
        self.jobs.put((self.task, f))

    async def renew(self, addr):
        if addr != self.addr:
            job = Job()
            self.jobs.put((job, lambda: self.ask(addr)))
            with self.ch.cv:
                if not self.ch.cv.wait_for(lambda: job.fin, LIMIT):
                    raise Hang('the session cannot be created')
            job.result()

    async def settle(self):
        ch = self.ch
        with ch.cv:
            if not ch.cv.wait_for(lambda: self.task.fin or ch.waiting, LIMIT):
                raise Hang('synchronous operation neither finished nor waiting for input')
            w = ch.waiter
        if w and isinstance(w[0], VLoop) and w[0].timers():      # days go by
            w[0].call_soon_threadsafe(w[0].pass_time)
            await asyncio.sleep(.05)

    async def kill(self):
        if self.task is not None and not self.task.done():
            for _ in range(50):
                self.ch.feed(down('over'))
                with self.ch.cv:
                    if self.ch.cv.wait_for(lambda: self.task.fin, 1):
                        break
        self.jobs.put(None)
        self.thread.join(5)


class Broken(Exception):
    pass


class SyncReplay(Replay):
    """A behaviour of the specification, through the synchronous API."""

    def __init__(self, cfg, steps, seed, way):
        super().__init__(cfg, [o for o in steps if o['a'] != 'crd'], seed)      # a blocking read cannot be cancelled
        self.way = way

    async def step(self, i, o):
        await super().step(i, o)
        end = self.ends[o['e']]
        if end.kind.startswith('explicit') and any(l is not end.loop for l in end.ch.loops):
            self.diff(i, 'loop', 'the session was given an event loop, but its blocking call ran on another one')
            self.stopped = True

    def make(self, role):
        w = self.way
        return SyncEnd(role, self.cfg, self.conc, w[0] if role == 'c' else w[1])

    def diff(self, i, facet, text):
        super().diff(i, facet if facet == 'hang' else 'sync.' + facet, '(synchronous API, %s) %s' % (self.way, text))
