"""C29 Long-running use accumulates nothing: memory, descriptors, threads and tasks stay bounded."""
import asyncio
import gc
import io
import logging
import os
import socket
import threading
import time
import tracemalloc
import warnings
from collections import deque
from concurrent.futures import ThreadPoolExecutor

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.channel import AsyncioChannel, ByteChannel, SocketChannel
from saltchannel.dev.client_server import MpClientServerPair
from saltchannel.dev.client_server_a import open_saltchannel_connection, start_saltchannel_server
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.simple_echo_session import SimpleEchoSession
from saltchannel.dev.simple_echo_session_a import SimpleEchoSessionA
from saltchannel.dev.tunnel import Tunnel, TunnelMP
from saltchannel.exceptions import SaltChannelException
from saltchannel.saltlib import SaltLib
from saltchannel.saltlib.saltlib_native import SaltLibNative
from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl

from vlib import gen, hostile, net, ref, sess

PROP = 'C29'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'phases': 120, 'operations': 12000, 'fd_samples': 120, 'workloads': 25}
RULE = ('one evaluation = one phase (a fixed number of operations) of a workload, with the memory traced by tracemalloc, the objects known to the collector, open descriptors '
        'and threads sampled after a full collection before and after it; distinct = distinct (workload, phase)')


class Pipe(ByteChannel):
    """A transport that keeps nothing of what has been read."""
    def __init__(self):
        super().__init__()
        self.q, self.peer, self.ev = deque(), None, asyncio.Event()

    async def read(self):
        while not self.q:
            self.ev.clear()
            await self.ev.wait()
        return self.q.popleft()

    async def write(self, msg, *args, is_last=False):
        self.peer.q.extend((bytes(msg),) + tuple(bytes(a) for a in args))
        self.peer.ev.set()


def pipes():
    a, b = Pipe(), Pipe()
    a.peer, b.peer = b, a
    return a, b


async def connect(cfg, wrap=lambda x: x):
    a, b = pipes()
    c, s = cfg.client(wrap(a)), cfg.server(wrap(b))
    c.buffer_M4 = False
    await asyncio.gather(c.handshake(), s.handshake())
    return c, s


# every workload: an async generator function that does one phase of about n operations per step

class W:
    """Base: setup() once, phase() repeatedly inside one running loop."""
    n = 120
    total = None

    def __init__(self, rng):
        self.rng = rng

    async def setup(self):
        pass

    async def teardown(self):
        pass


class Traffic(W):
    wrap = staticmethod(lambda x: x)

    async def setup(self):
        self.c, self.s = await connect(sess.Cfg(self.rng), self.wrap)

    async def phase(self):
        r = self.rng
        for i in range(self.n):
            a, b = (self.c, self.s) if i % 2 else (self.s, self.c)
            k = i % 5
            ms = [b'x' * (i % 50)] if k < 3 else [b'y' * (j % 7) for j in range(2 + i % 9)]
            await a.app_channel.write(*ms, is_last=(k == 4))
            for m in ms:
                if bytes(await b.app_channel.read()) != m:
                    raise AssertionError('echo')
        del r


class Many(Traffic):
    """A great many short messages in one session: not even a few bytes may be kept for each."""
    n = 3000
    total = 3            # bytes per operation over all phases

    async def phase(self):
        for i in range(self.n // 2):
            await self.c.app_channel.write(b'x')
            await self.s.app_channel.read()
            await self.s.app_channel.write(b'y', b'z', is_last=True)
            await self.c.app_channel.read()
            await self.c.app_channel.read()


class ManyRefused(Traffic):
    """A great many packets that are refused, in one session."""
    n = 3000
    total = 3

    async def phase(self):
        for i in range(self.n):
            self.c.clear_channel.q.append(b'\x06\0' + bytes(20))
            try:
                await self.c.app_channel.read()
                raise AssertionError('accepted')
            except SaltChannelException:
                pass


class Sizes(Traffic):
    """Every message has a size not seen before: nothing may be kept per size."""
    base = 0

    async def phase(self):
        for i in range(self.n):
            Sizes.base += 1
            m = bytes(1000 + Sizes.base)
            await self.c.app_channel.write(m)
            await self.s.app_channel.read()
            await self.s.app_channel.write(m, b'1')
            await self.c.app_channel.read()
            await self.c.app_channel.read()


class Mitm(Traffic):
    wrap = staticmethod(MitmChannel)


class MitmLog(Traffic):
    async def setup(self):
        self.chs = []
        log = logging.getLogger('c29')
        log.propagate = False
        log.setLevel(logging.INFO)
        log.handlers = [logging.StreamHandler(io.StringIO())]
        self.log = log

        def wrap(x):
            m = MitmChannel(x, log=log)
            m.log_buffering = True
            self.chs.append(m)
            return m
        self.c, self.s = await connect(sess.Cfg(self.rng), wrap)

    async def phase(self):
        await super().phase()
        for m in self.chs:
            m.flush_log_buffer()
        self.log.handlers = [logging.StreamHandler(io.StringIO())]


class BadTraffic(Traffic):
    """A peer that keeps sending garbage."""
    async def phase(self):
        for i in range(self.n):
            self.c.clear_channel.q.append(hostile.raw(self.rng)[:300])
            try:
                await self.c.app_channel.read()
            except SaltChannelException:
                pass


class Refused(Traffic):
    """Genuine packets changed on the way, replayed, cut or from another session: each is refused, then the genuine one arrives."""
    async def phase(self):
        r = self.rng
        for i in range(self.n):
            x, y = (self.c, self.s) if i % 2 else (self.s, self.c)
            await x.app_channel.write(b'm' * (i % 40))
            q = y.clear_channel.q
            g = bytearray(q[0])
            k = i % 5
            if k == 0:
                g[r.randrange(2, len(g))] ^= 1 << r.randrange(8)
            elif k == 1:
                g = g[:-1]
            elif k == 2:
                g += b'z'
            elif k == 3:
                g = b'\x06\0' + r.randbytes(100)
            else:
                g = b'\x06\0' + r.randbytes(3)
            q.appendleft(bytes(g))
            try:
                await y.app_channel.read()
                raise AssertionError('accepted')
            except SaltChannelException:
                pass
            await y.app_channel.read()


class Odd(Traffic):
    """The peer owns the key but sends what is no application packet."""
    async def setup(self):
        self.cfg = sess.Cfg(self.rng, plain=True)
        self.c, self.s = await connect(self.cfg)
        self.v = 4

    async def phase(self):
        r = self.rng
        for i in range(self.n):
            clear = [b'', b'\x05', b'\x0b\0' + bytes(6), b'\x0b\0\0\0\0\0\x05\0\x02\0ab', r.randbytes(60), b'\x07' + bytes(30)][i % 6]
            self.c.clear_channel.q.append(ref.enc(ref.box(clear, self.v, self.cfg.session_key)))
            self.v += 2
            try:
                await self.c.app_channel.read()
            except SaltChannelException:
                pass


class Cancelled(Traffic):
    """Reads that are given up while they wait, writes whose transport fails."""
    async def phase(self):
        for i in range(self.n):
            t = asyncio.ensure_future(self.c.app_channel.read())
            for _ in range(i % 4):
                await asyncio.sleep(0)
            t.cancel()
            try:
                await t
            except asyncio.CancelledError:
                pass
            if i % 3 == 0:
                await self.s.app_channel.write(b'm', b'n')
                await self.c.app_channel.read()
                await self.c.app_channel.read()
            if i % 3 == 1:
                ch = self.c.clear_channel
                ch.peer, keep = None, ch.peer              # makes the transport fail
                try:
                    await self.c.app_channel.write(b'lost')
                except AttributeError:
                    pass
                ch.peer = keep


class Sessions(W):
    """New parties all the time."""
    n = 50

    async def phase(self):
        for _ in range(self.n):
            c, s = await connect(sess.Cfg(self.rng))
            await c.app_channel.write(b'one', b'two')
            await s.app_channel.read()
            await s.app_channel.read()


class Failing(W):
    """Handshakes that fail, in one way per class."""
    n = 40

    async def phase(self):
        for i in range(self.n):
            cfg = sess.Cfg(self.rng)
            a, b = pipes()
            c, s = cfg.client(a), cfg.server(b)
            t = self.start(cfg, c, s, a, b)
            for _ in range(30):
                await asyncio.sleep(0)
            t.cancel()
            try:
                await t
            except (SaltChannelException, asyncio.CancelledError, ArithmeticError):
                pass


def both(c, s):
    return asyncio.gather(c.handshake(), s.handshake(), return_exceptions=True)


class GarbageM1(Failing):
    def start(self, cfg, c, s, a, b):
        b.q.append(hostile.raw(self.rng)[:300])
        return asyncio.ensure_future(s.handshake())


class GarbageM2(Failing):
    def start(self, cfg, c, s, a, b):
        a.q.append(hostile.raw(self.rng)[:300])
        return asyncio.ensure_future(c.handshake())


class NoSuch(Failing):
    def start(self, cfg, c, s, a, b):
        c.wanted_server_sig_key = self.rng.randbytes(32)
        return both(c, s)


class Unanswered(Failing):
    def start(self, cfg, c, s, a, b):
        return asyncio.ensure_future(c.handshake())


class Abandoned(Failing):
    def start(self, cfg, c, s, a, b):
        c.buffer_M4 = True
        return both(c, s)                # the server waits for ever


class BadSignature(Failing):
    """M3 or M4 (in turn) is signed with another key than it names, or its packet is changed."""
    k = 0

    def start(self, cfg, c, s, a, b):
        BadSignature.k += 1
        c.buffer_M4 = False
        who = s if self.k % 2 else c
        if self.k % 4 < 2:
            other = ref.sig_keys(self.rng.randbytes(32))
            who.sig_keypair = type(who.sig_keypair)(sec=other[0], pub=who.sig_keypair.pub)
        else:
            (a if who is s else b).q = Flip((a if who is s else b).q, 1)
        return both(c, s)


class Flip(deque):
    """Changes the last bit of the n-th message."""
    def __init__(self, it, n):
        super().__init__(it)
        self.n = n

    def popleft(self):
        m = super().popleft()
        self.n -= 1
        return m if self.n >= 0 else m[:-1] + bytes([m[-1] ^ 1])


class WeakKey(Failing):
    def start(self, cfg, c, s, a, b):
        b.q.append(ref.m1(1, bytes(32)))
        a.q.append(ref.m2(1, bytes(32)))
        return both(c, s)


class Refusing:
    def report_first_time(self, t):
        pass

    def check_time(self, t):
        raise ArithmeticError('late')


class Late(Failing):
    """A time checker that refuses."""
    def start(self, cfg, c, s, a, b):
        c.buffer_M4 = False
        self.rng.choice([c, s]).time_checker = Refusing()
        return both(c, s)


class A1(W):
    n = 60

    async def phase(self):
        for i in range(self.n):
            cfg = sess.Cfg(self.rng, plain=True)
            a, b = pipes()
            cl, s = A1ClientSession(a), cfg.server(b)
            await asyncio.gather(cl.do_a1a2(), s.handshake())


class A1Bad(W):
    """Servers asked for others, clients that get nonsense."""
    n = 60

    async def phase(self):
        for i in range(self.n):
            cfg = sess.Cfg(self.rng, plain=True)
            a, b = pipes()
            cl, s = A1ClientSession(a), cfg.server(b)
            if i % 2:
                cl.a1.data.AddressType = 1
                cl.a1.data.AddressSize = 32
                cl.a1.Address = self.rng.randbytes(32)
                await asyncio.gather(cl.do_a1a2(), s.handshake())
            else:
                a.q.append(self.rng.choice([b'', b'\x09', b'\x09\x80\x05', b'\x09\x80\x01' + b' ' * 20, self.rng.randbytes(50)]))
                try:
                    await cl.do_a1a2()
                except SaltChannelException:
                    pass


class Packets(W):
    n = 300

    async def phase(self):
        from checks import c07
        for i in range(self.n):
            raw = hostile.raw(self.rng)[:2000]
            try:
                bytes(c07.CLS[self.rng.choice(hostile.NAMES)](src_buf=raw))
            except SaltChannelException:
                pass


class Crypto(W):
    n = 150

    async def setup(self):
        self.libs = [SaltLibNative(), SaltLibPyNaCl()]

    async def phase(self):
        r = self.rng
        for i in range(self.n):
            lib = self.libs[i % 2]
            SaltLib()
            SaltLib.getLib()
            pk, sk = ref.enc_keys(r.randbytes(32))[::-1]
            k = lib.crypto_box_beforenm(pk, sk)
            n = r.randbytes(24)
            ct = lib.crypto_box_afternm(bytes(i), n, k)
            lib.crypto_box_open_afternm(ct, n, k)
            try:
                lib.crypto_box_open_afternm(ct + b'x', n, k)
            except Exception:
                pass
            seed = r.randbytes(32)
            p, s = lib.crypto_sign_keypair_fromseed(seed) if hasattr(lib, 'crypto_sign_keypair_fromseed') else (None, None)
            sec, pub = ref.sig_keys(seed)
            sm = lib.crypto_sign(bytes(i), sec)
            lib.crypto_sign_open(sm, pub)
            lib.crypto_hash(bytes(i))
            lib.randombytes(i + 1)


class Streams(W):
    """New stream connections all the time."""
    n = 20

    async def phase(self):
        for i in range(self.n):
            a, b = socket.socketpair()
            r1, w1 = await open_saltchannel_connection(sock=a)
            r2, w2 = await open_saltchannel_connection(sock=b)
            ca, cb = AsyncioChannel(r1, w1), AsyncioChannel(r2, w2)
            cfg = sess.Cfg(self.rng, plain=True)
            c, s = cfg.client(ca), cfg.server(cb)
            if i % 3 == 0:
                t = asyncio.ensure_future(s.handshake())
                await asyncio.sleep(0)
                ca.close()
                try:
                    await t
                except SaltChannelException:
                    pass
            else:
                await asyncio.gather(c.handshake(), s.handshake())
                await c.app_channel.write(b'x' * 5000)
                await s.app_channel.read()
            ca.close()
            cb.close()
            for w in (w1, w2):
                try:
                    await w.wait_closed()
                except Exception:
                    pass


class StreamTraffic(W):
    n = 150

    async def setup(self):
        a, b = socket.socketpair()
        self.w = []
        r1, w1 = await open_saltchannel_connection(sock=a)
        r2, w2 = await open_saltchannel_connection(sock=b)
        self.w = [w1, w2]
        cfg = sess.Cfg(self.rng, plain=True)
        self.c, self.s = cfg.client(AsyncioChannel(r1, w1)), cfg.server(AsyncioChannel(r2, w2))
        await asyncio.gather(self.c.handshake(), self.s.handshake())

    async def phase(self):
        for i in range(self.n):
            await self.c.app_channel.write(bytes(i * 7))
            await self.s.app_channel.read()
            await self.s.app_channel.write(b'a', b'b', b'')
            for _ in range(3):
                await self.c.app_channel.read()

    async def teardown(self):
        for w in self.w:
            w.transport.abort()


class Servers(W):
    """The bundled asyncio server side under many short connections."""
    n = 12

    async def setup(self):
        ses = SimpleEchoSessionA()
        self.ses = ses
        self.srv = await start_saltchannel_server(ses.server_session, '127.0.0.1', 0)
        self.port = self.srv.sockets[0].getsockname()[1]

    async def phase(self):
        for i in range(self.n):
            r, w = await open_saltchannel_connection('127.0.0.1', self.port)
            await self.ses.client_session(r, w)
            w.close()
            try:
                await w.wait_closed()
            except Exception:
                pass
        for _ in range(200):
            await asyncio.sleep(0.001)
            if len(asyncio.all_tasks()) <= 1:
                break

    async def teardown(self):
        self.srv.close()
        await self.srv.wait_closed()


class Threads(W):
    """The blocking API in short-lived threads."""
    n = 20

    def work(self):
        a, b = socket.socketpair()
        cfg = sess.Cfg(self.rng, plain=True)
        res = []

        def side(make, sock):
            try:
                s = make(SocketChannel(sock))
                s.handshake_sync()
                s.app_channel.write_sync(b'hello')
                res.append(s.app_channel.read_sync())
            finally:
                sock.close()
        ts = [threading.Thread(target=side, args=x) for x in ((cfg.client, a), (cfg.server, b))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if len(res) != 2:
            raise AssertionError('session in threads failed')

    async def phase(self):
        for _ in range(self.n):
            self.work()


class SyncTraffic(W):
    """One session in use for a long time through the *_sync calls, in a thread of its own."""
    n = 600
    total = 10

    async def setup(self):
        self.x = ThreadPoolExecutor(1)
        await asyncio.get_running_loop().run_in_executor(self.x, self.begin)

    def begin(self):
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.c, self.s = self.loop.run_until_complete(connect(sess.Cfg(self.rng)))

    def work(self):
        for i in range(self.n // 2):
            a, b = (self.c, self.s) if i % 2 else (self.s, self.c)
            a.app_channel.write_sync(b'x' * (i % 50))
            b.app_channel.read_sync()
            a.app_channel.write_sync(b'y', b'z', is_last=True)
            b.app_channel.read_sync()
            b.app_channel.read_sync()
            if i % 5 == 0:
                a.clear_channel.q.append(b'\x06\0' + bytes(20))
                try:
                    a.app_channel.read_sync()
                    raise AssertionError('accepted')
                except SaltChannelException:
                    pass

    async def phase(self):
        await asyncio.get_running_loop().run_in_executor(self.x, self.work)

    async def teardown(self):
        await asyncio.get_running_loop().run_in_executor(self.x, self.loop.close)
        self.x.shutdown()


class SocketTraffic(SyncTraffic):
    """The same over SocketChannels that stay connected, with a MitmChannel on one side."""
    def begin(self):
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.socks = socket.socketpair()
        self.a, self.b = SocketChannel(self.socks[0]), MitmChannel(SocketChannel(self.socks[1]))

    def work(self):
        for i in range(self.n // 2):
            a, b = (self.a, self.b) if i % 2 else (self.b, self.a)
            a.write_sync(b'x' * (i % 50), b'', b'y')
            if [b.read_sync() for _ in range(3)] != [b'x' * (i % 50), b'', b'y']:
                raise AssertionError('echo')

    async def teardown(self):
        for s in self.socks:
            s.close()
        await super().teardown()


class Runner(W):
    """The bundled threaded runner."""
    n = 12

    async def phase(self):
        logging.disable(logging.CRITICAL)
        try:
            cs = MpClientServerPair(SimpleEchoSession())
            cs.start_server()
            cs.run_sessions(self.n, jitter=False)
            cs.stop_server()
        finally:
            logging.disable(logging.NOTSET)


class Tunnels(W):
    n = 200
    kind = Tunnel

    async def setup(self):
        t = self.t = self.kind()
        self.a, self.b = t.channel1, t.channel2

    async def phase(self):
        for i in range(self.n):
            await self.a.write(bytes(i), b'x')
            await self.b.read()
            await self.b.read()
            await self.b.write(bytes(i))
            await self.a.read()


class TunnelsMP(Tunnels):
    kind = TunnelMP


class NewTunnels(W):
    n = 60

    async def phase(self):
        for i in range(self.n):
            t = (Tunnel, TunnelMP)[i % 2]()
            await t.channel1.write(b'x' * i)
            await t.channel2.read()
            await t.channel2.write(b'never read')


ALL = [Many, ManyRefused, Traffic, Sizes, Mitm, MitmLog, BadTraffic, Refused, Odd, Cancelled, Sessions, GarbageM1, GarbageM2, NoSuch, Unanswered, Abandoned, BadSignature, WeakKey, Late,
       A1, A1Bad, Packets, Crypto, Streams, StreamTraffic, Servers, Threads, SyncTraffic, SocketTraffic, Runner, Tunnels, TunnelsMP, NewTunnels]


def sample():
    for _ in range(3):
        gc.collect()
    return dict(memory=tracemalloc.get_traced_memory()[0], objects=len(gc.get_objects()), fds=len(os.listdir('/proc/self/fd')), threads=threading.active_count())


LIMITS = (('memory', 12, 2000), ('objects', 0.2, 8), ('fds', 0, 0), ('threads', 0, 0), ('tasks', 0, 0))


def growing(rows, n):
    """Growth in practically every phase, in proportion to the work: the second smallest growth is still too large."""
    for what, per_op, base in LIMITS:
        deltas = sorted(b[what] - a[what] for a, b in zip(rows, rows[1:]))
        if deltas[1] > per_op * n + base:
            return what, deltas
    return None


def workload(ctx, rng, cls, phases, warm=3):
    w = cls(rng)
    if ctx.thorough:
        w.n *= 3
    rows = []

    async def more(k):
        for i in range(k):
            await w.phase()
            ctx.ev('operations', w.n)
            rows.append(dict(sample(), tasks=len(asyncio.all_tasks())))

    async def go():
        await w.setup()
        await more(warm + phases)
        # something that grows may be a cache with a limit: only growth that does not end counts
        t0 = time.monotonic()
        while growing(rows[-phases - 1:], w.n) and len(rows) * w.n < 6000 and (time.monotonic() - t0 < 120 or len(rows) < 30):
            ctx.ev('extra_phases', phases)
            await more(phases)
        await w.teardown()
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    tracemalloc.start(1)
    try:
        loop.run_until_complete(asyncio.wait_for(go(), 600))
    finally:
        tracemalloc.stop()
        loop.run_until_complete(asyncio.sleep(0))
        loop.close()
        asyncio.set_event_loop(None)
    ctx.ev('workloads')
    ctx.ev('fd_samples', len(rows))
    g = growing(rows[-phases - 1:], w.n)
    if w.total and not g:
        grown = rows[-1]['memory'] - rows[-phases - 1]['memory']
        if grown > w.total * w.n * phases:
            g = 'memory', [grown]
    if g:
        ctx.violation('%s grows with every phase of %d operations: %s' % (g[0], w.n, g[1]), key='%s-%s' % (g[0], cls.__name__), workload=cls.__name__, operations_per_phase=w.n,
                      samples=rows[-phases - 1:], phases=len(rows))
        return
    for i in range(len(rows)):
        ctx.ev('phases')
        ctx.case((cls.__name__, i, ctx.shard))
        ctx.state((cls.__name__, rows[i]['fds'], rows[i]['threads'], rows[i]['tasks']))


def run(ctx):
    rng = ctx.rng
    warnings.simplefilter('ignore')
    with ctx.cpu_guard(900):
        for cls in ctx.share(ALL):
            workload(ctx, rng, cls, ctx.scale(6, 12))
