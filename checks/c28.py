"""C28 Flow control: who does not read stops the writer instead of filling memory."""
import asyncio
import socket
import struct
import threading

from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.dev.client_server_a import (SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter, open_saltchannel_connection,
                                              start_saltchannel_server)
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.dev.simple_echo_session_a import SimpleEchoSessionA

from vlib import gen, net, sess

PROP = 'C28'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'paused_writes': 1500, 'resumed_writes': 1500, 'stalled_writers': 16, 'stalled_readers': 16, 'bytes_after_resume': 10000000, 'session_stalls': 16,
           'blocking_stalls': 8, 'stalled_plain': 16, 'stalled_echo': 8}
RULE = ('one evaluation = one writer against a transport or socket whose other end does not take data: writes stop completing within a bound, and after the other end reads, '
        'everything arrives unchanged; distinct = distinct (layer, sizes, limits, schedule)')

BOUND = 6 << 20        # kernel buffers, stream limits and one message together stay far below this
TOTAL = 24 << 20       # what an unbounded writer would accept


def frame(m):
    return struct.pack('<i', len(m)) + bytes(m)


class Transport(asyncio.Transport):
    """Takes nothing from its buffer until told to; pushes back above its limit like asyncio's transports."""
    def __init__(self, protocol, high):
        super().__init__()
        self.protocol, self.high = protocol, high
        self.buf, self.out, self.paused = bytearray(), bytearray(), False

    def write(self, data):
        self.buf += bytes(data)
        if len(self.buf) > self.high and not self.paused:
            self.paused = True
            self.protocol.pause_writing()

    def writelines(self, lst):
        for x in lst:
            self.write(x)

    def flush(self):
        self.out += self.buf
        del self.buf[:]
        if self.paused:
            self.paused = False
            self.protocol.resume_writing()

    def is_closing(self):
        return False

    def close(self):
        pass

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


def paused(ctx, rng):
    """Model transport: a write whose data is above the limit completes only after the transport has room again."""
    high = rng.choice([0, 1, 100, 1000, 5000])
    calls = [gen.batch(rng, 60, rng.choice([20, 300, 2000]), 4000) for _ in range(rng.randrange(1, 8))]
    wrap = rng.random() < 0.3
    log = []
    bad = []

    async def go():
        loop = asyncio.get_running_loop()
        reader = SaltChannelStreamReader(loop=loop)
        protocol = SaltChannelStreamReaderProtocol(reader, loop=loop)
        tr = Transport(protocol, high)
        protocol.connection_made(tr)
        ch = AsyncioChannel(reader, SaltChannelStreamWriter(tr, protocol, reader, loop), loop=loop)
        ch = MitmChannel(ch) if wrap else ch
        for c in calls:
            t = asyncio.ensure_future(ch.write(*[gen.typed(rng, m) for m in c], **rng.choice([{}, {}, {'is_last': True}, {'is_last': False}])))
            for _ in range(rng.randrange(2, 8)):
                await asyncio.sleep(0)
            over = tr.paused
            if over:
                ctx.ev('paused_writes')
                for _ in range(20):
                    await asyncio.sleep(0)
                if t.done():
                    bad.append('a write completes although the transport asked to pause')
                    t.exception()
                    return
                tr.flush()
                for _ in range(50):
                    if t.done():
                        break
                    await asyncio.sleep(0)
                if not t.done():
                    bad.append('a write does not complete after the transport resumed')
                    t.cancel()
                    return
                ctx.ev('resumed_writes')
            await t
            log.append(over)
        tr.flush()
        if bytes(tr.out) != b''.join(frame(m) for c in calls for m in c):
            bad.append('bytes written under push-back are not the framed messages')
    o = sess.run1(go)
    info = dict(high=high, sizes=[[len(m) for m in c] for c in calls])
    if o.kind == 'exc':
        return ctx.fail_exc('write under push-back fails', o.value, key='paused-exc', **info)
    ctx.case(('paused', high, [[len(m) for m in c] for c in calls], wrap))
    ctx.state(tuple(log))
    if bad or o.kind == 'stuck':
        ctx.violation(bad[0] if bad else 'stuck', key='paused-' + (bad[0][:20] if bad else 'stuck'), **info)


def run_real(coro):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(asyncio.wait_for(coro, 300))
    finally:
        loop.close()
        asyncio.set_event_loop(None)


async def settle(get):
    """Until the count does not change any more."""
    prev, same = -1, 0
    while same < 4:
        await asyncio.sleep(0.03)
        cur = get()
        same = same + 1 if cur == prev else 0
        prev = cur
    return prev


async def connection(rng, *, limit=None):
    """-> (plain socket end, reader, writer, closing function) of a connection one end of which is a channel: opened with open_saltchannel_connection on a socket
    pair, opened over TCP, or accepted by start_saltchannel_server. Kernel buffers are small."""
    loop = asyncio.get_running_loop()
    kw = {} if limit is None else {'limit': limit}
    how = rng.choice(['pair', 'accepted', 'accepted', 'tcp'])
    if how == 'pair':
        a, b = socket.socketpair()
        a.setblocking(False)
        b.setblocking(False)
        r, w = await open_saltchannel_connection(sock=b, **kw)
        return how, a, r, w, lambda: None
    lst = socket.socket()
    lst.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
    lst.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 65536)
    lst.bind(('127.0.0.1', 0))
    lst.listen()
    lst.setblocking(False)
    addr = lst.getsockname()
    a = socket.socket()
    a.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
    a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 65536)
    a.setblocking(False)
    if how == 'accepted':
        got = loop.create_future()

        async def on(r, w):
            if not got.done():
                got.set_result((r, w))
        srv = await start_saltchannel_server(on, sock=lst, **kw)
        await loop.sock_connect(a, addr)
        r, w = await got
        return how, a, r, w, srv.close
    task = asyncio.ensure_future(loop.sock_accept(lst))
    await loop.sock_connect(a, addr)
    peer, _ = await task
    lst.close()
    peer.setblocking(False)
    r, w = await open_saltchannel_connection(sock=a, **kw)
    return how, peer, r, w, lambda: None


def stall_writer(ctx, rng, session, ntasks):
    """A real socket whose peer does not read at first."""
    a, b = socket.socketpair()
    a.setblocking(False)
    b.setblocking(False)
    size = rng.choice([1000, 16384, 65535, 65536, 200000])
    n = TOTAL // size // ntasks
    last = rng.random() < 0.3
    done = [0]
    cfg = sess.Cfg(rng)
    cfg.buf4 = False
    res = {}

    async def go():
        r1, w1 = await open_saltchannel_connection(sock=a)
        r2, w2 = await open_saltchannel_connection(sock=b)
        ca, cb = AsyncioChannel(r1, w1), AsyncioChannel(r2, w2)
        if session:
            cl, sv = cfg.client(ca), cfg.server(cb)
            await asyncio.gather(cl.handshake(), sv.handshake())
            ca, cb = cl.app_channel, sv.app_channel
        data = bytes(i & 0xff for i in range(256)) * (size // 256 + 1)

        async def writer(k):
            for i in range(n):
                await ca.write(struct.pack('<II', k, i) + data[:size - 8], is_last=last)
                done[0] += size
        ts = [asyncio.ensure_future(writer(k)) for k in range(ntasks)]
        res['stalled'] = await settle(lambda: done[0])
        res['buffered'] = len(r2._buffer) if hasattr(r2, '_buffer') else 0
        # now it is read: everything arrives
        nxt = [0] * ntasks
        limit = min(n * ntasks, 3 * res['stalled'] // size + 50)
        for _ in range(limit):
            m = bytes(await cb.read())
            k, i = struct.unpack('<II', m[:8])
            if k >= ntasks or i != nxt[k] or m[8:] != data[:size - 8]:
                res['bad'] = (k, i)
                break
            nxt[k] += 1
            ctx.ev('bytes_after_resume', size)
        for t in ts:
            t.cancel()
        await asyncio.gather(*ts, return_exceptions=True)
        w1.transport.abort()
        w2.transport.abort()
        await asyncio.sleep(0)
    info = dict(layer='AppChannelV2' if session else 'AsyncioChannel', message=size, tasks=ntasks)
    try:
        run_real(go())
    except asyncio.TimeoutError:
        return ctx.violation('messages do not arrive after the reader resumed', key='writer-stuck', **info)
    finally:
        a.close()
        b.close()
    ctx.ev('session_stalls' if session else 'stalled_writers')
    ctx.case(('writer', session, size, ntasks, ctx.caseno))
    if res['stalled'] + size * ntasks > BOUND:
        return ctx.violation('writes keep completing although nobody reads: %d bytes' % res['stalled'], key='unbounded-write', **info)
    if 'bad' in res:
        return ctx.violation('data is wrong after the reader resumed', key='writer-data', at=res['bad'], **info)
    if res['stalled'] == 0 and size < 60000:
        ctx.ev('nothing_accepted')


def stall_reader(ctx, rng):
    """The application does not read: the channel must stop taking data from the socket."""
    size = rng.choice([1000, 16384, 65536, 150000])
    unit = frame(rng.randbytes(8) + bytes(size - 8))
    sent = [0]
    res = {}

    async def go():
        loop = asyncio.get_running_loop()
        how, a, r, w, close = await connection(rng, limit=rng.choice([None, None, 1024, 65536]))
        res['how'] = how
        ctx.ev('reader_' + how)
        ch = AsyncioChannel(r, w)
        ch = MitmChannel(ch) if rng.random() < 0.2 else ch

        async def pump():
            big = unit * max(1, 200000 // len(unit))
            while sent[0] < TOTAL:
                await loop.sock_sendall(a, big)
                sent[0] += len(big)
        t = asyncio.ensure_future(pump())
        res['taken'] = await settle(lambda: sent[0])
        for i in range(3 * res['taken'] // len(unit) + 20 if res['taken'] <= BOUND else 0):
            if bytes(await ch.read()) != unit[4:]:
                res['bad'] = i
                break
            ctx.ev('bytes_after_resume', size)
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        w.transport.abort()
        close()
        a.close()
        await asyncio.sleep(0)
    try:
        run_real(go())
    except asyncio.TimeoutError:
        return ctx.violation('messages do not arrive after the application reads again', key='reader-stuck', message=size, connection=res.get('how'))
    ctx.ev('stalled_readers')
    ctx.case(('reader', size, ctx.caseno))
    if res['taken'] > BOUND:
        ctx.violation('data is taken from the network without bound although the application does not read: %d bytes' % res['taken'], key='unbounded-read', message=size, connection=res.get('how'))
    elif 'bad' in res:
        ctx.violation('data is wrong after the application resumed', key='reader-data', at=res['bad'], message=size, connection=res.get('how'))


def stall_plain(ctx, rng):
    """A channel end of any kind writes to a plain socket that is not read at first; batches of many messages, also through a MitmChannel."""
    size = rng.choice([200, 1000, 16384, 65536])
    per = rng.choice([1, 2, 9, 12, 40])
    wrap = rng.random() < 0.5
    kw = rng.choice([{}, {}, {'is_last': True}])
    unit = rng.randbytes(8) + bytes(size - 8)
    done = [0]
    res = {}

    async def go():
        loop = asyncio.get_running_loop()
        how, a, r, w, close = await connection(rng)
        res['how'] = how
        ctx.ev('plain_' + how)
        ch = AsyncioChannel(r, w)
        ch = MitmChannel(ch) if wrap else ch

        async def pump():
            while done[0] < TOTAL:
                await ch.write(*[unit] * per, **kw)
                done[0] += size * per
        t = asyncio.ensure_future(pump())
        res['taken'] = await settle(lambda: done[0])
        want = frame(unit)
        left = b''
        n = 2 * res['taken'] + 100000 if res['taken'] <= BOUND else 0
        while n > 0 and 'bad' not in res:
            d = await loop.sock_recv(a, 1 << 20)
            if not d:
                res['bad'] = 'closed'
                break
            n -= len(d)
            ctx.ev('bytes_after_resume', len(d))
            left += d
            k = len(left) // len(want)
            if left[:k * len(want)] != want * k:
                res['bad'] = 'data'
            left = left[k * len(want):]
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        w.transport.abort()
        close()
        a.close()
        await asyncio.sleep(0)
    info = dict(message=size, per_call=per, mitm=wrap)
    try:
        run_real(go())
    except asyncio.TimeoutError:
        return ctx.violation('messages do not arrive after the reader resumed', key='plain-stuck', **info)
    ctx.ev('stalled_plain')
    ctx.case(('plain', res['how'], size, per, wrap, ctx.caseno))
    if res['taken'] + size * per > BOUND + size * per:
        ctx.violation('writes keep completing although nobody reads: %d bytes' % res['taken'], key='unbounded-plain', connection=res['how'], **info)
    elif 'bad' in res:
        ctx.violation('data is wrong after the reader resumed', key='plain-data', what_=res['bad'], connection=res['how'], **info)


def stall_echo(ctx, rng):
    """The bundled asyncio echo server against a client that sends and does not read at first."""
    size = rng.choice([1000, 16384, 65536, 150000])
    unit = frame(rng.randbytes(8) + bytes(size - 8))
    sent = [0]
    res = {}

    async def go():
        loop = asyncio.get_running_loop()
        lst = socket.socket()
        a = socket.socket()
        for x in (lst, a):
            x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
            x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 65536)
            x.setblocking(False)
        lst.bind(('127.0.0.1', 0))
        lst.listen()
        srv = await start_saltchannel_server(SimpleEchoSessionA().server_session, sock=lst)
        await loop.sock_connect(a, lst.getsockname())

        async def pump():
            big = unit * max(1, 200000 // len(unit))
            while sent[0] < TOTAL:
                await loop.sock_sendall(a, big)
                sent[0] += len(big)
        t = asyncio.ensure_future(pump())
        res['taken'] = await settle(lambda: sent[0])
        left, n = b'', 2 * res['taken'] + 100000 if res['taken'] <= BOUND else 0
        while n > 0 and 'bad' not in res:
            d = await loop.sock_recv(a, 1 << 20)
            if not d:
                res['bad'] = 'closed'
                break
            n -= len(d)
            ctx.ev('bytes_after_resume', len(d))
            left += d
            k = len(left) // len(unit)
            if left[:k * len(unit)] != unit * k:
                res['bad'] = 'data'
            left = left[k * len(unit):]
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        srv.close()
        a.close()
        await asyncio.sleep(0.05)
    try:
        run_real(go())
    except asyncio.TimeoutError:
        return ctx.violation('echoes do not arrive after the client reads', key='echo-stuck', message=size)
    ctx.ev('stalled_echo')
    ctx.case(('echo', size, ctx.caseno))
    if res['taken'] > BOUND:
        ctx.violation('the echo server takes data without bound from a client that does not read: %d bytes' % res['taken'], key='unbounded-echo', message=size)
    elif 'bad' in res:
        ctx.violation('echoes are wrong after the client resumed', key='echo-data', what_=res['bad'], message=size)


def blocking(ctx, rng):
    """SocketChannel: write_sync blocks."""
    a, b = socket.socketpair()
    size = rng.choice([1000, 65536, 200000])
    n = TOTAL // size
    done = [0]
    stop = []
    err = []

    def body():
        ch = SocketChannel(a)
        try:
            for i in range(n):
                ch.write_sync(struct.pack('<I', i) + bytes(size - 4))
                done[0] += size
        except Exception as e:
            if not stop:
                err.append(e)
    t = threading.Thread(target=body, daemon=True)
    t.start()
    prev, same = -1, 0
    while same < 4:
        t.join(0.03)
        cur = done[0]
        same, prev = (same + 1 if cur == prev else 0), cur
    stalled = done[0]
    rd = SocketChannel(b)
    ok = True
    for i in range(min(n, 2 * stalled // size + 20)):
        m = rd.read_sync()
        ok = ok and m == struct.pack('<I', i) + bytes(size - 4)
        ctx.ev('bytes_after_resume', size)
    stop.append(1)
    b.close()
    t.join(60)
    a.close()
    ctx.ev('blocking_stalls')
    ctx.case(('blocking', size, ctx.caseno))
    if stalled + size > BOUND:
        ctx.violation('write_sync keeps completing although nobody reads: %d bytes' % stalled, key='unbounded-sync', message=size)
    elif err:
        ctx.fail_exc('a blocked write_sync fails', err[0], key='blocking-exc', message=size)
    elif not ok:
        ctx.violation('data is wrong after the reader resumed', key='blocking-data', message=size)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900):
        for _ in range(ctx.scale(400, 8000)):
            paused(ctx, rng)
        for i in range(ctx.scale(4, 30)):
            stall_writer(ctx, rng, False, rng.choice([1, 1, 2, 5]))
            stall_writer(ctx, rng, True, rng.choice([1, 1, 2, 5]))
            stall_reader(ctx, rng)
            stall_reader(ctx, rng)
            stall_plain(ctx, rng)
            stall_plain(ctx, rng)
            stall_echo(ctx, rng)
            blocking(ctx, rng)
