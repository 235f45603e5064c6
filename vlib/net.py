"""Simulated transports with recording, fault injection and logical (not wall-clock) deadlock detection."""
import asyncio
import contextlib
import selectors
import ssl
import struct
import threading
from collections import deque

from saltchannel.channel import ByteChannel
from saltchannel.exceptions import ComException


class Stuck(BaseException):
    """Every party of a simulated world waits for input that can never arrive."""


class Own(Exception):
    """An exception type the library cannot know."""


def fault(rng, text='injected'):
    """What a broken transport may raise, marked as injected."""
    k = rng.choice([Cut, ComException, OSError, ConnectionResetError, ConnectionAbortedError, BrokenPipeError, TimeoutError, BlockingIOError, InterruptedError, EOFError, ValueError,
                    KeyError, IndexError, AttributeError, TypeError, RuntimeError, NotImplementedError, AssertionError, MemoryError, BufferError, LookupError, UnicodeError,
                    asyncio.InvalidStateError, asyncio.IncompleteReadError, asyncio.LimitOverrunError, struct.error, ssl.SSLError, Own])
    if k is asyncio.IncompleteReadError:
        e = k(b'', 4)
    elif k is asyncio.LimitOverrunError:
        e = k(text, 4)
    else:
        e = k(text)
    e.injected = True
    return e


class Cut(ComException):
    """The simulated transport broke."""


# ---------------------------------------------------------------- event loop with virtual time

class _Sel(selectors.BaseSelector):
    """Polls real descriptors, but never sleeps: time is virtual, and 'would sleep for ever' is reported to the loop."""
    def __init__(self):
        self.real = selectors.DefaultSelector()
        self.loop = None
        self.idle = 0

    def register(self, *a):
        return self.real.register(*a)

    def unregister(self, *a):
        return self.real.unregister(*a)

    def modify(self, *a):
        return self.real.modify(*a)

    def get_map(self):
        return self.real.get_map()

    def close(self):
        self.real.close()

    def select(self, timeout=None):
        r = self.real.select(0)
        if r or timeout == 0:
            return r
        if timeout is None:
            if self.loop.real_io > 0:                  # a real socket is in use: wait for it
                r = self.real.select(1.0)
                self.idle = 0 if r else self.idle + 1
                if self.idle >= 30:                    # nothing is under way on the (local) sockets any more
                    self.idle = 0
                    self.loop.stuck()
                return r
            self.loop.stuck()
            return []
        self.loop.vtime += timeout + 1e-9
        return r


class MonLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vtime = 0.0
        self.real_io = 0
        self.stuck_count = 0
        sel = _Sel()
        sel.loop = self
        super().__init__(sel)

    def time(self):
        return self.vtime

    def stuck(self):
        self.stuck_count += 1
        if self.stuck_count > 50:
            raise Stuck('tasks ignore cancellation')
        for t in asyncio.all_tasks(self):
            if getattr(t, 'mon_party', False):
                t.cancel()


class Outcome:
    """How one party ended: kind is 'ok', 'exc' or 'stuck'."""
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return '%s:%s' % (self.kind, repr(self.value)[:200])

    def brief(self):
        return self.kind if self.kind != 'exc' else 'exc:' + type(self.value).__name__


async def _guard(coro):
    try:
        return Outcome('ok', await coro)
    except asyncio.CancelledError:
        return Outcome('stuck')
    except Stuck:
        return Outcome('stuck')
    except Exception as e:
        return Outcome('exc', e)


def run_async(parties, real_io=False):
    """parties: {name: coroutine function without arguments}. Runs them to the end on one loop -> {name: Outcome}"""
    loop = MonLoop()
    loop.real_io = 1 if real_io else 0
    asyncio.set_event_loop(loop)
    try:
        async def main():
            ts = {}
            for n, f in parties.items():
                t = asyncio.ensure_future(_guard(f()))
                t.mon_party = True
                ts[n] = t
            await asyncio.wait(list(ts.values()))
            return {n: t.result() for n, t in ts.items()}
        res = loop.run_until_complete(main())
        left = [t for t in asyncio.all_tasks(loop)]
        for t in left:
            t.cancel()
        if left:
            loop.run_until_complete(asyncio.wait(left))
        return res
    finally:
        with contextlib.suppress(Exception):
            loop.run_until_complete(loop.shutdown_asyncgens())
        loop.close()
        asyncio.set_event_loop(None)


@contextlib.contextmanager
def own_loop():
    """A fresh private loop as the current loop of this thread, for the *_sync API."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        yield loop
    finally:
        loop.close()
        asyncio.set_event_loop(None)


# ---------------------------------------------------------------- in-memory link

class Link:
    """Reliable, ordered, bidirectional message link between 'c' and 's'.

    sent[x]      messages handed to the transport by x, as [(bytes, is_last flag of the write call, write call number)]
    filter[x]    f(index, message) -> list of messages to deliver instead (a man in the middle)
    trace        ordered events
    """
    def __init__(self, rng=None, jitter=0):
        self.rng, self.jitter = rng, jitter
        self.q = {'c': deque(), 's': deque()}          # inbox of each party
        self.sent = {'c': [], 's': []}
        self.calls = {'c': 0, 's': 0}
        self.filter = {}
        self.on_write = {}
        self.trace = []
        self.closed = {'c': False, 's': False}         # inbox closed: no more data will arrive
        self.delivered = {'c': 0, 's': 0}
        self.wfail = {'c': None, 's': None}            # f(call number) -> exception to raise, or None
        self.cond = threading.Condition()
        self.waiting = {}
        self.live = set()
        self._futs = {'c': [], 's': []}
        self.wake = False
        self.eof = None                                # () -> exception of a read from a closed inbox

    @staticmethod
    def other(x):
        return 's' if x == 'c' else 'c'

    def push(self, who, msgs, is_last):
        n = self.calls[who]
        self.calls[who] += 1
        fail = self.wfail[who](n) if self.wfail[who] else None
        if fail is not None and not getattr(fail, 'after', False):
            self.trace.append((who, 'wfail', 0))
            raise fail
        for m in msgs:
            raw = bytes(m)
            i = len(self.sent[who])
            self.sent[who].append((raw, is_last, n))
            self.trace.append((who, 'w', len(raw)))
            out = [raw]
            f = self.filter.get(who)
            if f:
                out = f(i, raw)
            self.inject(self.other(who), *out)
        if fail is not None:
            raise fail

    def inject(self, to, *msgs):
        if self.closed[to]:
            return
        self.q[to].extend(bytes(m) for m in msgs)
        self._notify(to)

    def close(self, to):
        """The inbox of 'to' gets no more data."""
        self.closed[to] = True
        self._notify(to)

    def _notify(self, to):
        for f in self._futs[to]:
            if not f.done():
                f.set_result(None)
        self._futs[to].clear()

    def pop(self, who):
        m = self.q[who].popleft()
        self.delivered[who] += 1
        self.trace.append((who, 'r', len(m)))
        return m

    async def wait(self, who):
        while not self.q[who]:
            if self.closed[who]:
                raise self.eof() if self.eof else Cut('end of stream')
            f = asyncio.get_running_loop().create_future()
            self._futs[who].append(f)
            await f

    def party_done(self, who):
        with self.cond:
            self.live.discard(who)
            self.closed[self.other(who)] = True
            self.cond.notify_all()


class AsyncEnd(ByteChannel):
    """asyncio endpoint: data is enqueued when write() is called, then write() may stay suspended ('drain')."""
    def __init__(self, link, who):
        super().__init__()
        self.link, self.who = link, who

    async def _jitter(self):
        l = self.link
        if l.rng and l.jitter:
            for _ in range(l.rng.randrange(l.jitter + 1)):
                await asyncio.sleep(0)

    async def read(self):
        l = self.link
        while True:
            await l.wait(self.who)
            await self._jitter()
            if l.q[self.who]:
                return l.pop(self.who)

    async def write(self, msg, *args, is_last=False):
        self.link.push(self.who, (msg,) + args, is_last)
        await self._jitter()

    def close(self):
        self.link.close(self.link.other(self.who))


class SyncEnd(ByteChannel):
    """Blocking endpoint for threads. Its coroutines block too, like those of SocketChannel."""
    def __init__(self, link, who):
        super().__init__()
        self.link, self.who = link, who

    async def read(self):
        return self.read_sync()

    async def write(self, msg, *args, is_last=False):
        self.write_sync(msg, *args, is_last=is_last)

    def read_sync(self):
        l, me = self.link, self.who
        with l.cond:
            l.waiting[me] = True
            try:
                while not l.q[me]:
                    if l.closed[me]:
                        raise l.eof() if l.eof else Cut('end of stream')
                    if all(l.waiting.get(p) and not l.q[p] for p in l.live):
                        l.wake = True
                        l.cond.notify_all()
                    if l.wake:
                        raise Stuck()
                    l.cond.wait()
                return l.pop(me)
            finally:
                l.waiting[me] = False

    def write_sync(self, msg, *args, is_last=False):
        with self.link.cond:
            self.link.push(self.who, (msg,) + args, is_last)
            self.link.cond.notify_all()

    def close(self):
        with self.link.cond:
            self.link.close(self.link.other(self.who))
            self.link.cond.notify_all()


def run_threads(link, parties):
    """parties: {'c': f, 's': f} blocking functions, each in its own thread -> {name: Outcome}"""
    res = {}
    link.live = set(parties)

    def body(n, f):
        try:
            try:
                res[n] = Outcome('ok', f())
            except Stuck:
                res[n] = Outcome('stuck')
            except Exception as e:
                res[n] = Outcome('exc', e)
            except BaseException as e:
                res[n] = Outcome('exc', e)
        finally:
            link.party_done(n)
            with contextlib.suppress(Exception):
                loop = asyncio.get_event_loop_policy().get_event_loop()
                if not loop.is_running():
                    loop.close()
    ts = [threading.Thread(target=body, args=(n, f), daemon=True) for n, f in parties.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


# ---------------------------------------------------------------- scripted peer

class ScriptEnd(ByteChannel):
    """A deterministic single-threaded channel: every message written is given to peer(msg) -> list of replies.

    Works for the asynchronous and the synchronous API; reading when nothing can ever arrive raises Cut
    (the peer has closed the connection)."""
    def __init__(self, peer=None, inbox=(), eof=None):
        super().__init__()
        self.peer, self.inbox, self.eof = peer, deque(inbox), eof
        self.sent = []
        self.calls = []
        self.reads = 0

    def read_sync(self):
        self.reads += 1
        if not self.inbox:
            raise self.eof if self.eof is not None else Cut('end of stream')
        return self.inbox.popleft()

    def write_sync(self, msg, *args, is_last=False):
        self.calls.append((len(args) + 1, is_last))
        for m in (msg,) + args:
            raw = bytes(m)
            self.sent.append(raw)
            if self.peer:
                self.inbox.extend(self.peer(raw))

    async def read(self):
        return self.read_sync()

    async def write(self, msg, *args, is_last=False):
        self.write_sync(msg, *args, is_last=is_last)

    def close(self):
        pass


class Driver:
    """Calls one operation of the real code through the asyncio or the *_sync API on a private loop -> Outcome"""
    def __enter__(self):
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        return self

    def __exit__(self, *a):
        self.loop.close()
        asyncio.set_event_loop(None)
        return False

    def call(self, api, obj, name, *args, **kw):
        try:
            if api == 'sync':
                return Outcome('ok', getattr(obj, name + '_sync')(*args, **kw))

            async def go():
                return await getattr(obj, name)(*args, **kw)
            return Outcome('ok', self.loop.run_until_complete(go()))
        except Stuck:
            return Outcome('stuck')
        except Exception as e:
            return Outcome('exc', e)
