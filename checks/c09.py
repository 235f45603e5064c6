"""C09 Stream framing preserves messages under every segmentation."""
import asyncio
import os
import signal
import socket
import struct
import threading

from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.dev.client_server_a import (SaltChannelStreamReader, SaltChannelStreamReaderProtocol, SaltChannelStreamWriter,
                                             open_saltchannel_connection, start_saltchannel_server)
from saltchannel.exceptions import ComException

from vlib import gen, net

PROP = 'C09'
BOOST = 6
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'written_streams_checked': 1000, 'segmentations': 3000, 'eof_positions': 3000, 'messages_read': 10000, 'negative_lengths': 50,
           'io_errors': 100, 'tcp_sessions': 4, 'large_messages': 4, 'closed_channels': 100, 'buffers_reused': 1000,
           'negative_lengths_open': 200, 'closed_with_data_pending': 20}
RULE = ('one evaluation = one byte stream written by, or fed to, a real channel (SocketChannel on sockets with short reads, AsyncioChannel on the real stream '
        'reader/writer, also over TCP) with one segmentation or end position; distinct = distinct (channel, API, stream, segmentation)')


def frame(msgs):
    return b''.join(struct.pack('<i', len(m)) + bytes(m) for m in msgs)


class Choppy(socket.socket):
    """A real socket that never receives more than it is told to at once."""
    pieces = None

    def _n(self, n):
        if self.pieces is None or n <= 1:
            return n
        try:
            return max(1, min(n, next(self.pieces)))
        except StopIteration:
            return n

    def recv(self, n, flags=0):
        return super().recv(self._n(n) if not flags else n, flags)

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        return super().recv_into(buf, self._n(n) if not flags else n, flags)


class Stingy(socket.socket):
    """A real socket whose send buffer takes only a little at a time, as send() and sendmsg() may on any socket."""
    take = 5

    def send(self, data, flags=0):
        return super().send(memoryview(data).cast('B')[:self.take], flags)

    def sendmsg(self, buffers, *a):
        for b in buffers:
            if len(b):
                return self.send(b)
        return 0


def choppy_pair():
    a, b = socket.socketpair()
    return Choppy(fileno=a.detach()), b


# ------------------------------------------------------------------ reading

def pieces(stream, cuts):
    """Lengths of the segments when the stream is cut at the given positions."""
    out, prev = [], 0
    for c in sorted(set(cuts)) + [len(stream)]:
        if c > prev:
            out.append(c - prev)
            prev = c
    return out


def read_socket(api, stream, segs, nreads, close=True):
    """-> list of results of nreads reads: bytes or exception. All input, and its end, is available beforehand."""
    a, b = choppy_pair()
    a.pieces = iter(segs)
    feeder = None
    if len(stream) < 60000:
        b.sendall(stream)
        b.shutdown(socket.SHUT_WR)
    else:
        def feed():
            try:
                b.sendall(stream)
                b.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        feeder = threading.Thread(target=feed, daemon=True)
        feeder.start()
    out = []
    try:
        ch = SocketChannel(a)
        with net.Driver() as d:
            for _ in range(nreads):
                o = d.call(api, ch, 'read')
                out.append(o)
    finally:
        a.close()
        b.close()
        if feeder:
            feeder.join()
    return out


def read_asyncio(api, stream, segs, nreads, after=0):
    """The same for AsyncioChannel: segments are fed one by one while the reader waits."""
    loop = net.MonLoop()
    asyncio.set_event_loop(loop)
    out = []
    try:
        reader = SaltChannelStreamReader(loop=loop)
        ch = AsyncioChannel(reader, None, loop=loop)

        async def feed():
            pos = 0
            for n in segs:
                reader.feed_data(stream[pos:pos + n])
                pos += n
                for _ in range(after):
                    await asyncio.sleep(0)
                await asyncio.sleep(0)
            if pos < len(stream):
                reader.feed_data(stream[pos:])
            reader.feed_eof()
        if api == 'async':
            async def go():
                f = asyncio.ensure_future(feed())
                for _ in range(nreads):
                    try:
                        out.append(net.Outcome('ok', await ch.read()))
                    except Exception as e:
                        out.append(net.Outcome('exc', e))
                await f
            t = loop.create_task(go())
            t.mon_party = True
            try:
                loop.run_until_complete(t)
            except asyncio.CancelledError:
                out.append(net.Outcome('stuck'))
        else:
            f = loop.create_task(feed())
            for _ in range(nreads):
                try:
                    out.append(net.Outcome('ok', ch.read_sync()))
                except Exception as e:
                    out.append(net.Outcome('exc', e))
            loop.run_until_complete(f)
    finally:
        loop.close()
        asyncio.set_event_loop(None)
    return out


READERS = {'socket': read_socket, 'asyncio': read_asyncio}


def expect(ctx, kind, api, got, msgs, what, **info):
    """msgs complete messages, then only ComExceptions."""
    for i, o in enumerate(got):
        if i < len(msgs):
            ctx.ev('messages_read')
            if not o.ok or bytes(o.value) != msgs[i]:
                ctx.violation('%s/%s: message %d not delivered intact (%s)' % (kind, api, i, what), key='%s-message' % kind,
                              got=o.value if o.ok else repr(o), want=msgs[i], **info)
                return False
        else:
            if o.ok:
                ctx.violation('%s/%s: read returned data after the stream ended (%s)' % (kind, api, what), key='%s-eof-%s' % (kind, what), got=o.value, **info)
                return False
            if o.kind != 'exc' or not isinstance(o.value, ComException):
                if o.kind == 'exc':
                    ctx.fail_exc('%s/%s: undocumented exception (%s)' % (kind, api, what), o.value, key='%s-exc-%s' % (kind, what), **info)
                else:
                    ctx.violation('%s/%s: hangs (%s)' % (kind, api, what), key='%s-hang' % kind, **info)
                return False
    return True


def small_stream(rng, maximum=12, count=4):
    return [gen.fill(rng, rng.choice([0, 0, 1, 2, 3, 4, 5, 8, rng.randrange(maximum + 1)])) for _ in range(rng.randrange(1, count + 1))]


def segment(ctx, rng, kind, api, msgs, cuts, label):
    stream = frame(msgs)
    segs = pieces(stream, cuts)
    got = READERS[kind](api, stream, segs, len(msgs) + 1)
    ctx.ev('segmentations')
    ctx.case((kind, api, stream if len(stream) < 200 else (len(stream), stream[:40]), tuple(segs[:200])))
    ctx.state((kind, api, tuple(segs[:30])))
    expect(ctx, kind, api, got, msgs, label, segs=segs[:30], sizes=[len(m) for m in msgs])


def eof(ctx, rng, kind, api, msgs, at):
    stream = frame(msgs)[:at]
    done, pos = [], 0
    for m in msgs:
        if pos + 4 + len(m) <= at:
            done.append(m)
            pos += 4 + len(m)
        else:
            break
    cuts = [rng.randrange(len(stream) + 1) for _ in range(rng.randrange(0, 4))]
    got = READERS[kind](api, stream, pieces(stream, cuts), len(done) + rng.choice([1, 2, 3]))
    ctx.ev('eof_positions')
    ctx.case((kind, api, 'eof', at, frame(msgs)[:200]))
    expect(ctx, kind, api, got, done, 'eof', at=at, sizes=[len(m) for m in msgs])


def negative(ctx, rng, kind, api):
    n = rng.choice([-1, -2, -3, -4, -5, -32, -255, -256, -65536, -2 ** 24, -2 ** 31, -2 ** 31 + 1, -rng.randrange(1, 2 ** 31)])
    before = small_stream(rng)
    tail = rng.choice([b'', frame([b'next']), rng.randbytes(40), bytes(64)])
    stream = frame(before) + struct.pack('<i', n) + tail
    got = READERS[kind](api, stream, [], len(before) + 1)
    ctx.ev('negative_lengths')
    ctx.case((kind, api, 'neg', n, len(before)))
    expect(ctx, kind, api, got, before, 'negative length', length=n)


class Waits(BaseException):
    pass


def negative_open(ctx, rng, kind, api):
    """The same while the connection stays open: nothing more ever arrives, and the read must not wait for it."""
    n = rng.choice([-1, -2, -3, -4, -5, -32, -255, -256, -65536, -2 ** 24, -2 ** 31, -2 ** 31 + 1, -rng.randrange(1, 2 ** 31)])
    before = small_stream(rng)
    stream = frame(before) + struct.pack('<i', n) + rng.choice([b'', b'', b'x', frame([b'next'])])
    out = []
    if kind == 'socket':
        a, b = socket.socketpair()
        b.sendall(stream)
        ch = SocketChannel(a)

        def on(sig, frm):
            raise Waits()
        old = signal.signal(signal.SIGALRM, on)
        signal.alarm(60)
        try:
            with net.Driver() as d:
                for _ in range(len(before) + 1):
                    out.append(d.call(api, ch, 'read'))
        except Waits:
            out.append(net.Outcome('stuck'))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            a.close()
            b.close()
    else:
        loop = net.MonLoop()
        asyncio.set_event_loop(loop)
        try:
            reader = SaltChannelStreamReader(loop=loop)
            ch = AsyncioChannel(reader, None, loop=loop)
            reader.feed_data(stream)

            async def go():
                for _ in range(len(before) + 1):
                    try:
                        out.append(net.Outcome('ok', await ch.read()))
                    except Exception as e:
                        out.append(net.Outcome('exc', e))
            t = loop.create_task(go())
            t.mon_party = True
            try:
                loop.run_until_complete(t)
            except asyncio.CancelledError:
                out.append(net.Outcome('stuck'))
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    ctx.ev('negative_lengths_open')
    ctx.case((kind, api, 'negopen', n, len(before)))
    expect(ctx, kind, api, out, before, 'negative length', length=n)


# ------------------------------------------------------------------ writing

class Transport(asyncio.Transport):
    """Records what a stream writer emits; can push back and break."""
    def __init__(self):
        super().__init__()
        self.kept = []
        self.fail = None
        self.closing = False

    def write(self, data):
        if self.fail:
            raise self.fail
        self.kept.append(memoryview(data))         # like asyncio's own transports: what the socket does not take at once is kept without copying

    @property
    def out(self):
        return b''.join(self.kept)

    def writelines(self, list_of_data):
        for x in list_of_data:
            self.write(x)

    def is_closing(self):
        return self.closing

    def close(self):
        self.closing = True

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


def make_writer(loop):
    reader = SaltChannelStreamReader(loop=loop)
    protocol = SaltChannelStreamReaderProtocol(reader, loop=loop)
    tr = Transport()
    protocol.connection_made(tr)
    return reader, protocol, tr, SaltChannelStreamWriter(tr, protocol, reader, loop)


def scribble(ctx, msgs):
    """The caller uses its buffers again after write() has returned."""
    for m in msgs:
        if isinstance(m, bytearray) and m:
            m[:] = bytes(x ^ 0x5a for x in m[:64]) + m[64:]
            ctx.ev('buffers_reused')


def written(ctx, rng, kind, api, calls):
    want = frame([m for c in calls for m in c])
    if kind == 'socket':
        a, b = socket.socketpair()
        how = rng.random()
        if how < 0.4:
            a = Stingy(fileno=a.detach())
            a.take = rng.choice([1, 3, 4, 5, 100])
            ctx.ev('stingy_sockets')
        elif how < 0.6:
            a.settimeout(60)
            a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
            ctx.ev('timeout_sockets')
        got = bytearray()

        def drain():
            while True:
                x = b.recv(65536)
                if not x:
                    return
                got.extend(x)
        t = threading.Thread(target=drain, daemon=True)
        t.start()
        ch = SocketChannel(a)
        with net.Driver() as d:
            for c in calls:
                c = [gen.typed(rng, m) for m in c]
                o = d.call(api, ch, 'write', *c, is_last=rng.random() < 0.3)
                scribble(ctx, c)
                if not o.ok:
                    ctx.violation('socket: write failed', key='write-failed', outcome=repr(o))
        a.close()
        t.join()
        b.close()
    else:
        loop = net.MonLoop()
        asyncio.set_event_loop(loop)
        try:
            reader, protocol, tr, wr = make_writer(loop)
            ch = AsyncioChannel(reader, wr, loop=loop)
            for c in calls:
                push = rng.random() < 0.3
                c = [gen.typed(rng, m) for m in c]

                async def one():
                    if push:
                        protocol.pause_writing()
                        loop.call_later(0.01, protocol.resume_writing)
                    await ch.write(*c, is_last=rng.random() < 0.3)
                try:
                    if api == 'sync' and not push:
                        ch.write_sync(*c)
                    else:
                        loop.run_until_complete(one())
                except Exception as e:
                    ctx.fail_exc('asyncio: write failed', e, key='write-failed')
                scribble(ctx, c)
            got = tr.out
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    ctx.ev('written_streams_checked')
    ctx.case((kind, api, 'write', [[len(m) for m in c] for c in calls], bytes(want[:60])))
    ctx.check(bytes(got) == want, '%s/%s: bytes written are not the framed messages' % (kind, api), key='%s-written' % kind,
              calls=[[len(m) for m in c] for c in calls], got=bytes(got[:120]), want=want[:120])


# ------------------------------------------------------------------ errors

class BrokenSock(socket.socket):
    error = None
    after = 0

    def _tick(self):
        if self.after <= 0:
            raise self.error
        self.after -= 1

    def recv(self, n, flags=0):
        self._tick()
        return super().recv(min(n, 3), flags)

    def recv_into(self, buf, nbytes=0, flags=0):
        self._tick()
        return super().recv_into(buf, min(nbytes or len(buf), 3), flags)

    def send(self, data, flags=0):
        raise self.error

    def sendall(self, data, flags=0):
        raise self.error

    def sendmsg(self, *a):
        raise self.error


ERRORS = [ConnectionResetError(104, 'reset'), BrokenPipeError(32, 'pipe'), OSError(110, 'timed out'), socket.timeout('timed out'),
          ConnectionAbortedError(103, 'aborted'), OSError(9, 'bad fd'), TimeoutError('t'), InterruptedError(4, 'eintr')]


def errors(ctx, rng, api):
    e = rng.choice(ERRORS)

    def judge(o, what):
        ctx.ev('io_errors')
        ctx.case((what, api, repr(e)))
        if o.ok:
            ctx.violation('%s: success although the transport failed' % what, key='err-ok-' + what, error=repr(e))
        elif o.kind != 'exc' or not isinstance(o.value, ComException):
            ctx.violation('%s: transport error is not raised as ComException but %s' % (what, o.brief()), key='err-' + what, error=repr(e))
    for op in ('read', 'write'):
        a, b = socket.socketpair()
        s = BrokenSock(fileno=a.detach())
        s.error, s.after = e, rng.randrange(0, 6)        # the stream has 14 bytes, 3 at a time
        b.sendall(frame([b'0123456789']))
        with net.Driver() as d:
            judge(d.call(api, SocketChannel(s), op, *([] if op == 'read' else [b'x', b'y'][:rng.randrange(1, 3)])), 'socket ' + op)
        s.close()
        b.close()
    # a socket that is really gone
    a, b = socket.socketpair()
    ch = SocketChannel(a)
    with net.Driver() as d:
        b.close()
        judge(d.call(api, ch, 'read'), 'closed peer read')
        judge(d.call(api, ch, 'write', b'abc'), 'closed peer write')
        a.close()
        judge(d.call(api, ch, 'read'), 'closed read')
        judge(d.call(api, ch, 'write', b'abc'), 'closed write')
    # streams
    loop = net.MonLoop()
    asyncio.set_event_loop(loop)
    try:
        def call(ch, name, *args):
            try:
                if api == 'sync':
                    return net.Outcome('ok', getattr(ch, name + '_sync')(*args))
                return net.Outcome('ok', loop.run_until_complete(getattr(ch, name)(*args)))
            except Exception as x:
                return net.Outcome('exc', x)
        reader, protocol, tr, wr = make_writer(loop)
        reader.feed_data(frame([b'0123456789'])[:rng.randrange(0, 13)])
        reader.set_exception(e)
        judge(call(AsyncioChannel(reader, wr, loop=loop), 'read'), 'asyncio read')
        reader, protocol, tr, wr = make_writer(loop)
        tr.fail = e
        judge(call(AsyncioChannel(reader, wr, loop=loop), 'write', b'a', b'b'), 'asyncio write')
        reader, protocol, tr, wr = make_writer(loop)
        protocol.connection_lost(rng.choice([e, None]))
        tr.closing = True
        judge(call(AsyncioChannel(reader, wr, loop=loop), 'write', b'a'), 'asyncio write after connection_lost')
        judge(call(AsyncioChannel(reader, wr, loop=loop), 'read'), 'asyncio read after connection_lost')
    finally:
        loop.close()
        asyncio.set_event_loop(None)


# ------------------------------------------------------------------ real TCP

def tcp(ctx, rng, msgs_up, msgs_down):
    """Both directions at once over a real TCP connection, AsyncioChannel on both ends."""
    got = {'up': [], 'down': []}

    async def go():
        loop = asyncio.get_running_loop()
        done = loop.create_future()

        async def srv(reader, writer):
            try:
                ch = AsyncioChannel(reader, writer, loop=loop)

                async def wr():
                    for c in msgs_down:
                        await ch.write(*c)
                t = asyncio.ensure_future(wr())
                for c in msgs_up:
                    for _ in c:
                        got['up'].append(bytes(await ch.read()))
                await t
                if not done.done():
                    done.set_result(None)
            except Exception as e:
                if not done.done():
                    done.set_exception(e)
        server = await start_saltchannel_server(srv, '127.0.0.1', 0, loop=loop)
        port = server.sockets[0].getsockname()[1]
        reader, writer = await open_saltchannel_connection('127.0.0.1', port, loop=loop)
        ch = AsyncioChannel(reader, writer, loop=loop)

        async def wr():
            for c in msgs_up:
                await ch.write(*c)
        t = asyncio.ensure_future(wr())
        for c in msgs_down:
            for _ in c:
                got['down'].append(bytes(await ch.read()))
        await t
        await done
        ch.close()
        server.close()
    o = net.run_async({'x': go}, real_io=True)['x']
    if o.kind != 'ok':
        if o.kind == 'exc' and isinstance(o.value, OSError) and not isinstance(o.value, ConnectionError):
            ctx.ev('tcp_unavailable')
            return
        ctx.violation('TCP session failed: %s' % o.brief(), key='tcp', outcome=repr(o))
        return
    ctx.ev('tcp_sessions')
    for k, calls in (('up', msgs_up), ('down', msgs_down)):
        want = [bytes(m) for c in calls for m in c]
        ctx.ev('messages_read', len(want))
        ctx.check(got[k] == want, 'TCP: messages were not delivered intact', key='tcp-data', sizes=[len(m) for m in want][:20])
    ctx.case(('tcp', [len(m) for c in msgs_up + msgs_down for m in c]))


def duplex(ctx, rng):
    """SocketChannel on both ends in two threads, both directions, real socket buffers."""
    a, b = choppy_pair()
    a.pieces = iter([rng.choice([1, 2, 3, 5, 7, 100, 1000]) for _ in range(300)])
    up = [gen.batch(rng, 10, 3000, 9000) for _ in range(6)]
    down = [gen.batch(rng, 10, 3000, 9000) for _ in range(6)]
    res = {}

    def side(name, sock, wr, rd):
        try:
            ch = SocketChannel(sock)
            out = []
            for w, r in zip(wr, rd):
                ch.write_sync(*w)
                out.extend(bytes(ch.read_sync()) for _ in r)
            res[name] = out
        except Exception as e:
            res[name] = e
        finally:
            sock.close()
    t = [threading.Thread(target=side, args=x, daemon=True) for x in (('a', a, up, down), ('b', b, down, up))]
    for x in t:
        x.start()
    for x in t:
        x.join()
    ctx.case(('duplex', [[len(m) for m in c] for c in up + down]))
    for name, calls in (('a', down), ('b', up)):
        want = [m for c in calls for m in c]
        ctx.ev('messages_read', len(want))
        ctx.check(res[name] == want, 'SocketChannel duplex: messages were not delivered intact', key='duplex', got=repr(res[name])[:300])


def closing(ctx, rng):
    """AsyncioChannel.close(): the other end gets everything that was written, then the end of the stream."""
    calls = [gen.batch(rng, 10, rng.choice([20, 5000, 70000]), 150000) for _ in range(rng.randrange(5))]
    want = [m for c in calls for m in c]
    stop_at = rng.random() < 0.5
    late = rng.random() < 0.5            # the other side starts to read only after the close: the data waits in the transport's own buffer
    if late:
        total, keep = 0, []
        for c in calls:
            total += sum(len(m) + 4 for m in c)
            if total < 60000:            # below the high-water mark, so that write() returns while nothing is read
                keep.append(c)
        calls = keep
        if rng.random() < 0.5:
            calls = [[rng.randbytes(rng.choice([20000, 40000, 50000])), b'end']]
        want = [m for c in calls for m in c]

    async def go():
        a, b = socket.socketpair()
        if late:
            a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
            b.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        a.setblocking(False)
        b.setblocking(False)
        r1, w1 = await open_saltchannel_connection(sock=a)
        ca = AsyncioChannel(r1, w1)
        got = []
        if late:
            for c in calls:
                await ca.write(*[gen.typed(rng, m) for m in c])
            left = w1.transport.get_write_buffer_size()
            ca.close()
            for _ in range(rng.randrange(4)):
                await asyncio.sleep(0)
            ctx.ev('closed_with_data_pending', left > 0)
        r2, w2 = await open_saltchannel_connection(sock=b)
        cb = AsyncioChannel(r2, w2)

        async def reading():
            try:
                while True:
                    got.append(bytes(await cb.read()))
            except ComException:
                return True
        t = asyncio.ensure_future(reading())
        waiting = None
        if not late:
            waiting = asyncio.ensure_future(ca.read()) if stop_at else None      # a read that is under way when the channel is closed
            for c in calls:
                await ca.write(*[gen.typed(rng, m) for m in c])
            ca.close()
        res = await asyncio.wait_for(t, 60)
        own = None
        if waiting:
            own = (await asyncio.wait_for(asyncio.gather(waiting, return_exceptions=True), 60))[0]
        w2.transport.abort()
        await asyncio.sleep(0)
        return got, res, own
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    info = dict(sizes=[len(m) for m in want][:40])
    try:
        got, res, own = loop.run_until_complete(go())
    except asyncio.TimeoutError:
        return ctx.violation('close() does not end the stream for the other side (or for a read that is under way)', key='close-end', **info)
    except Exception as e:
        return ctx.fail_exc('writing and closing fails', e, key='close-exc', **info)
    finally:
        loop.close()
        asyncio.set_event_loop(None)
    ctx.ev('closed_channels')
    ctx.case(('close', [len(m) for m in want], stop_at))
    ctx.check(got == want, 'not everything that was written before close() arrives', key='close-data', got=[len(m) for m in got][:40], **info)
    if stop_at and not late:
        ctx.check(isinstance(own, ComException), 'a read that was under way when the channel was closed does not raise ComException', key='close-read', got=repr(own)[:200], **info)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2000):
        combos = [(k, a) for k in ('socket', 'asyncio') for a in ('sync', 'async')]
        for kind, api in combos:
            # every single cut, every pair of adjacent cuts, one byte at a time
            for _ in range(ctx.scale(20, 120)):
                msgs = small_stream(rng)
                n = len(frame(msgs))
                for c in range(1, n):
                    segment(ctx, rng, kind, api, msgs, [c], 'one cut')
                segment(ctx, rng, kind, api, msgs, range(1, n), 'single bytes')
                segment(ctx, rng, kind, api, msgs, [], 'all at once')
            for _ in range(ctx.scale(300, 5000)):
                msgs = small_stream(rng, 200, 12)
                n = len(frame(msgs))
                segment(ctx, rng, kind, api, msgs, [rng.randrange(n + 1) for _ in range(rng.randrange(1, 30))], 'random cuts')
            for _ in range(ctx.scale(20, 200)):
                msgs = small_stream(rng, 9, 3)
                for at in range(len(frame(msgs)) + 1):
                    eof(ctx, rng, kind, api, msgs, at)
            for s in ctx.share(gen.sizes(70000)):
                m = [gen.fill(rng, s), b'after']
                n = len(frame(m))
                segment(ctx, rng, kind, api, m, [rng.randrange(n + 1) for _ in range(3)], 'size %d' % s)
                eof(ctx, rng, kind, api, m, rng.choice([rng.randrange(n), s + 3, 4, 3, n - 1]))
                written(ctx, rng, kind, api, [[m[0]], [b'', m[0]], [m[1]]])
            for _ in range(ctx.scale(60, 1000)):
                negative(ctx, rng, kind, api)
                negative_open(ctx, rng, kind, api)
            for _ in range(ctx.scale(300, 5000)):
                written(ctx, rng, kind, api, [gen.batch(rng, 30, 400, 3000) for _ in range(rng.randrange(1, 6))])
            if ctx.only(combos.index((kind, api))):
                for s in (200000, 1 << 20, (1 << 24) + rng.randrange(-2, 3), ctx.scale(3 << 20, 40 << 20)):
                    m = [rng.randbytes(s), b'', b'tail']
                    segment(ctx, rng, kind, api, m, [rng.randrange(s) for _ in range(5)], 'large')
                    written(ctx, rng, kind, api, [m])
                    ctx.ev('large_messages')
        for _ in range(ctx.scale(40, 600)):
            for api in ('sync', 'async'):
                errors(ctx, rng, api)
        for _ in range(ctx.scale(30, 300)):
            closing(ctx, rng)
        for _ in range(ctx.scale(12, 200)):
            duplex(ctx, rng)
        for _ in range(ctx.scale(5, 60)):
            tcp(ctx, rng, [gen.batch(rng, 20, 70000, 300000) for _ in range(8)], [gen.batch(rng, 20, 70000, 300000) for _ in range(8)])
