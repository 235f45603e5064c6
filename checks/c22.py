"""C22 A broken connection never looks like success."""
import asyncio
import contextlib
import fcntl
import random
import signal
import socket
import struct
import termios
import threading

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.channel import AsyncioChannel, SocketChannel
from saltchannel.dev.client_server_a import open_saltchannel_connection
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import ComException

from vlib import gen, net, ref, sess

PROP = 'C22'
LEVEL = 'fault_enumeration'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'byte_cuts': 4000, 'bare_streams': 800, 'message_cuts': 1500, 'write_refusals': 500, 'refused_handshakes': 1000, 'com_exceptions': 5000, 'prefix_deliveries': 3000,
           'cuts_inside_message': 3000, 'channel_socket': 1000, 'channel_asyncio': 1000, 'role_client': 1000, 'role_server': 1000, 'role_a1': 200, 'closed_writes': 200, 'resets': 500, 'resets_inside': 500, 'calls_on_lost_connections': 1000, 'large_cuts': 200, 'foreign_exceptions': 500}
RULE = ('one evaluation = one session (client, server or A1 client; SocketChannel, AsyncioChannel or a message transport; both APIs) whose connection breaks at one point: '
        'after byte n of the incoming stream, after message k of a direction, or at write call k; distinct = distinct (session script, channel, API, break point, kind of break)')


class Hang(BaseException):
    pass


@contextlib.contextmanager
def watchdog(seconds=60):
    """A blocking call on a connection that is already broken has to return at once."""
    def on(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def frame(m):
    return struct.pack('<i', len(m)) + bytes(m)


class Script:
    """One party's operations and the complete incoming message sequence of an honest peer."""
    def __init__(self, seed, role):
        rng = random.Random(seed)
        self.role = role
        cfg = self.cfg = sess.Cfg(rng)
        cfg.buf4 = cfg.buf4 and role == 'client'
        cfg.ck = sess.Keeper(1, lambda i: 2 + i)
        cfg.sk = sess.Keeper(1, lambda i: 2 + i)
        cfg.cc, cfg.sc = sess.Checker(), sess.Checker()
        self.addr = rng.random() < 0.5
        msgs = []
        if role == 'a1':
            self.incoming = [ref.a2([(b'SCv2------', b'ECHO------')] * rng.randrange(0, 4))]
            self.need = 1
            self.ops = []
            return
        if role == 'client':
            peer = ref.RefServer(cfg.ssig, cfg.senc)
            peer.on_m1(ref.m1(1, cfg.cenc[1], cfg.ssig[1] if cfg.want else None))
            msgs = [peer.hello(1), peer.m3(2)]
        else:
            peer = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
            m1 = peer.hello(1)
            peer.on_m2(ref.m2(1, cfg.senc[1]))
            msgs = [m1, peer.m4(2)]
        self.need = 2
        self.ops = []
        self.app = []              # per incoming app packet: the messages in it
        for i in range(rng.randrange(1, 5)):
            if rng.random() < 0.5:
                self.ops.append(('w', gen.batch(rng, 4, 40, 200)))
            b = [gen.fill(rng, rng.choice([0, 1, 5, 40])) for _ in range(rng.choice([1, 1, 2, 3]))]
            msgs.append(peer.sec.seal(ref.app(3 + i, b[0]) if len(b) == 1 and rng.random() < 0.8 else ref.multi(3 + i, b), rng.random() < 0.2))
            self.app.append(b)
            self.ops += [('r',)] * len(b)
        if rng.random() < 0.5:
            self.ops.append(('w', [b'end']))
        self.incoming = msgs

    def make(self, ch):
        if self.role == 'client':
            return self.cfg.client(ch)
        if self.role == 'server':
            return self.cfg.server(ch)
        return A1ClientSession(ch)

    @property
    def start(self):
        return 'do_a1a2' if self.role == 'a1' else 'handshake'


async def do(api_call, *a, **k):
    return await api_call(*a, **k)


def play(ctx, sc, s, k, call, info, lossy):
    """k complete messages arrive. lossy: the peer is gone altogether, so a write may be refused and what was received may be lost.
    -> False after a violation"""
    def com(o, what):
        if o.kind == 'exc' and isinstance(o.value, ComException):
            ctx.ev('com_exceptions')
            return True
        if o.kind == 'exc':
            ctx.fail_exc('%s on a broken connection does not raise ComException' % what, o.value, key='type-%s-%s' % (what, type(o.value).__name__), **info)
        elif o.kind == 'stuck':
            ctx.violation('%s hangs on a broken connection' % what, key='hang-' + what, **info)
        else:
            ctx.violation('%s succeeds although the data it needs never arrived' % what, key='success-' + what, result=repr(o.value), **info)
        return False
    o = call(s, sc.start)
    if k < sc.need:
        ctx.ev('refused_handshakes')
        if not com(o, sc.start):
            return False
        if sc.role == 'a1':
            ctx.check(s.a2 is None, 'a broken A1 exchange left a result', key='a2', **info)
            return True
        o = call(s, sc.start)                 # trying again on the dead connection is no better
        return com(o, sc.start + ' again')
    if not o.ok:
        if lossy and com(o, sc.start):
            return True
        if not lossy:
            ctx.fail_exc('%s failed although all its messages arrived' % sc.start, o.value, key='start', **info) if o.kind == 'exc' else ctx.violation('hang', key='hang', **info)
        return False
    if sc.role == 'a1':
        return True
    avail = [m for b in sc.app[:k - sc.need] for m in b]
    got = 0
    for op in sc.ops + [('r',), ('r',)]:
        if op[0] == 'w':
            o = call(s.app_channel, 'write', *op[1])
            if not o.ok:
                if not lossy:
                    ctx.violation('a write failed although the connection for it is up', key='write', outcome=repr(o), **info)
                    return False
                if not com(o, 'write'):
                    return False
            continue
        o = call(s.app_channel, 'read')
        if got < len(avail) and o.ok:
            ctx.ev('prefix_deliveries')
            if bytes(o.value) != avail[got]:
                ctx.violation('messages before the break are not a prefix of those sent', key='prefix', expected=avail[got], got=o.value, **info)
                return False
            got += 1
        elif got < len(avail) and not lossy:
            ctx.violation('a message that arrived before the break is not delivered', key='lost', outcome=repr(o), **info)
            return False
        elif not com(o, 'read'):
            return False
    return True


def socket_case(ctx, seed, role, n, api, close):
    """SocketChannel on a real socket: n bytes arrive, then the end of the stream (close: the peer closes completely)."""
    sc = Script(seed, role)
    stream = b''.join(map(frame, sc.incoming))
    k, left = 0, n
    for m in sc.incoming:
        if left < len(m) + 4:
            break
        left -= len(m) + 4
        k += 1
    a, b = socket.socketpair()
    info = dict(role=role, channel='SocketChannel', api=api, bytes_arrived=n, of=len(stream), messages=k, close=close)
    b.sendall(stream[:n])
    if close:
        b.close()
    else:
        b.shutdown(socket.SHUT_WR)
    try:
        with watchdog(), net.Driver() as d:
            ch = SocketChannel(a)
            s = sc.make(MitmChannel(ch) if n % 5 == 0 else ch)
            play(ctx, sc, s, k, lambda obj, name, *args: d.call(api, obj, name, *args), info, close)
    except Hang:
        ctx.violation('a call hangs (or loops) on a broken connection', key='hang-socket', **info)
    finally:
        a.close()
        b.close()
    done(ctx, role, 'socket', seed, n, api, close, left)


def done(ctx, role, channel, seed, n, api, close, left):
    ctx.ev('byte_cuts')
    ctx.ev('role_' + role)
    ctx.ev('channel_' + channel)
    if left:
        ctx.ev('cuts_inside_message')
    ctx.case((seed, role, channel, n, api, close))


def asyncio_case(ctx, seed, role, n, api, close):
    sc = Script(seed, role)
    stream = b''.join(map(frame, sc.incoming))
    k, left = 0, n
    for m in sc.incoming:
        if left < len(m) + 4:
            break
        left -= len(m) + 4
        k += 1
    a, b = socket.socketpair()
    info = dict(role=role, channel='AsyncioChannel', api=api, bytes_arrived=n, of=len(stream), messages=k, close=close)
    b.sendall(stream[:n])
    if close:
        b.close()
    else:
        b.shutdown(socket.SHUT_WR)
    loop = net.MonLoop()
    loop.real_io = 1
    asyncio.set_event_loop(loop)

    def call(obj, name, *args):
        try:
            if api == 'sync':
                return net.Outcome('ok', getattr(obj, name + '_sync')(*args))
            return net.Outcome('ok', loop.run_until_complete(do(getattr(obj, name), *args)))
        except Exception as e:
            return net.Outcome('exc', e)
    try:
        with watchdog():
            r, w = loop.run_until_complete(open_saltchannel_connection(sock=a))
            ch = AsyncioChannel(r, w)
            s = sc.make(ch)
            ok = play(ctx, sc, s, k, call, info, close)
            if ok and close:
                # the peer is gone for good: it cannot go on for ever that writes seem to work
                res = []
                for _ in range(6):
                    res.append(call(ch, 'write', b'x'))
                    loop.run_until_complete(asyncio.sleep(0))
                ctx.ev('closed_writes')
                if any(o.kind == 'exc' and not isinstance(o.value, ComException) for o in res):
                    ctx.violation('write to a closed connection does not raise ComException', key='closed-write-type', outcomes=[repr(o) for o in res], **info)
                elif not isinstance(res[-1].value, ComException):
                    ctx.violation('write to a closed connection reports success', key='closed-write', outcomes=[repr(o) for o in res], **info)
            w.transport.abort()                  # from here on the connection is known to be lost
            for _ in range(3):
                loop.run_until_complete(asyncio.sleep(0))
            if ok:
                lost = [(ch, 'write', b'x'), (ch, 'write', b'', b'y')]
                if role != 'a1' and getattr(s, 'app_channel', None) is not None and k >= sc.need:
                    lost = [(s.app_channel, 'write', b'x')] + lost
                for x in lost + [(ch, 'read')]:
                    o = call(*x)
                    ctx.ev('calls_on_lost_connections')
                    if x[1] == 'read' and close and o.ok:
                        continue                 # what arrived before may still be there
                    if o.ok and not (x[1] == 'read' and bytes(o.value) in sc.incoming):
                        ctx.violation('%s on a lost connection reports success' % x[1], key='lost-' + x[1], **info)
                    elif not o.ok and not isinstance(o.value, ComException):
                        ctx.fail_exc('%s on a lost connection does not raise ComException' % x[1], o.value, key='lost-type', **info)
    except Hang:
        ctx.violation('a call hangs (or loops) on a broken connection', key='hang-asyncio', **info)
    finally:
        loop.close()
        asyncio.set_event_loop(None)
        a.close()
        b.close()
    done(ctx, role, 'asyncio', seed, n, api, close, left)


def reset_case(ctx, rng, kind, api):
    """TCP; the peer resets the connection after the handshake (or during it): reads fail, and so do writes once the system knows."""
    sc = Script(rng.random(), rng.choice(['client', 'server']))
    k = rng.choice([0, 1, 2, 2, 2, len(sc.incoming)])
    srv = socket.create_server(('127.0.0.1', 0))
    b = socket.create_connection(srv.getsockname())
    a, _ = srv.accept()
    srv.close()
    info = dict(role=sc.role, channel=kind, api=api, messages=k, reset=True)
    b.sendall(b''.join(map(frame, sc.incoming[:k])))
    sent = []

    def reset():
        b.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        b.close()
    loop = net.MonLoop()
    loop.real_io = 1
    asyncio.set_event_loop(loop)

    def call(obj, name, *args):
        try:
            if api == 'sync':
                return net.Outcome('ok', getattr(obj, name + '_sync')(*args))
            return net.Outcome('ok', loop.run_until_complete(do(getattr(obj, name), *args)))
        except Exception as e:
            return net.Outcome('exc', e)
    try:
        with watchdog():
            if kind == 'asyncio':
                r, w = loop.run_until_complete(open_saltchannel_connection(sock=a))
                ch = AsyncioChannel(r, w)
            else:
                ch = SocketChannel(a)
            s = sc.make(ch)
            if k < sc.need:
                reset()
            o = call(s, 'handshake')
            up = o.ok
            if k < sc.need:
                ctx.ev('refused_handshakes')
                if o.ok or not isinstance(o.value, ComException):
                    return ctx.violation('handshake on a connection that was reset: %s' % o.brief(), key='reset-hs', outcome=repr(o), **info)
            elif not o.ok:
                return ctx.violation('handshake failed although all its messages arrived', key='reset-start', outcome=repr(o), **info)
            else:
                reset()
            target = s.app_channel if up else ch
            for name, args in rng.sample([('read', ()), ('write', (b'x',)), ('write', (b'y', b'')), ('write', (b'z' * 100,))], 4) + [('write', (b'x',))] * 3 + [('read', ())]:
                if kind == 'asyncio':
                    loop.run_until_complete(asyncio.sleep(0))
                sent.append((name, call(target, name, *args)))
            if kind == 'asyncio':
                w.transport.abort()
                loop.run_until_complete(asyncio.sleep(0))
    except Hang:
        return ctx.violation('a call hangs (or loops) on a broken connection', key='hang-reset', **info)
    finally:
        loop.close()
        asyncio.set_event_loop(None)
        a.close()
        b.close()
    ctx.ev('resets')
    ctx.case(('reset', kind, api, sc.role, k, [(n, o.brief()) for n, o in sent]))
    info['outcomes'] = [(n, o.brief()) for n, o in sent]
    for n, o in sent:
        if not o.ok and not isinstance(o.value, ComException):
            return ctx.fail_exc('%s on a connection that was reset does not raise ComException' % n, o.value, key='reset-type', **info)
        if not o.ok:
            ctx.ev('com_exceptions')
    for n, o in sent[-4:]:
        if o.ok and not (n == 'read' and k > sc.need):
            return ctx.violation('%s on a connection that was reset reports success' % n, key='reset-success-' + n, **info)


def reset_inside(ctx, rng, kind, api):
    """TCP; the peer resets the connection while a reader has a part of a message: that message is never delivered."""
    whole = [gen.fill(rng, rng.choice([0, 1, 20, 300])) for _ in range(rng.randrange(3))]
    last = frame(gen.fill(rng, rng.choice([1, 2, 20, 300, 70000])))
    part = last[:rng.choice([rng.randrange(len(last)), rng.randrange(4, len(last)), len(last) - 1])]
    srv = socket.create_server(('127.0.0.1', 0))
    b = socket.create_connection(srv.getsockname())
    a, _ = srv.accept()
    srv.close()
    b.sendall(b''.join(map(frame, whole)) + part)
    over = threading.Event()

    def reset():
        n, buf = 0, bytearray(4)
        with contextlib.suppress(OSError, ValueError):
            while not over.wait(0.002) and n < 2000:          # until everything was taken from the socket (or nobody takes it)
                fcntl.ioctl(a.fileno(), termios.FIONREAD, buf)
                n += 1
                if not struct.unpack('i', buf)[0] and n > 3:
                    break
        b.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        b.close()
    loop = net.MonLoop()
    loop.real_io = 1
    asyncio.set_event_loop(loop)
    got = []
    t = threading.Thread(target=reset, daemon=True)
    try:
        with watchdog():
            if kind == 'asyncio':
                r, w = loop.run_until_complete(open_saltchannel_connection(sock=a))
                ch = AsyncioChannel(r, w)
            else:
                ch = SocketChannel(a)
            for i in range(len(whole) + 3):
                if i == len(whole):
                    t.start()
                try:
                    got.append(net.Outcome('ok', ch.read_sync() if api == 'sync' else loop.run_until_complete(ch.read())))
                except Exception as e:
                    got.append(net.Outcome('exc', e))
            if kind == 'asyncio':
                w.transport.abort()
                loop.run_until_complete(asyncio.sleep(0))
    except Hang:
        return ctx.violation('a read hangs on a connection that was reset inside a message', key='inside-hang', channel=kind, api=api)
    finally:
        over.set()
        if t.ident:
            t.join()
        loop.close()
        asyncio.set_event_loop(None)
        a.close()
        b.close()
    ctx.ev('resets_inside')
    ctx.case(('inside', kind, api, [len(m) for m in whole], len(last), len(part)))
    info = dict(channel=kind, api=api, whole=[len(m) for m in whole], message=len(last), arrived=len(part), outcomes=[o.brief() for o in got])
    for m, o in zip(whole, got):
        if not o.ok or o.value != m:
            return ctx.violation('a message that arrived before the reset is not read', key='inside-before', **info)
    for o in got[len(whole):]:
        if o.ok or not isinstance(o.value, ComException):
            return ctx.violation('read() of a message cut by a reset: %s' % o.brief(), key='inside-read', **info)


# ------------------------------------------------------------------ the channels alone

def bare(ctx, rng, msgs, n, kind, api):
    """n bytes of a stream of framed messages arrive, then its end: complete messages are read, then ComException for ever."""
    stream = b''.join(map(frame, msgs))
    want, left = [], n
    for m in msgs:
        if left < len(m) + 4:
            break
        want.append(m)
        left -= len(m) + 4
    info = dict(channel=kind, api=api, bytes_arrived=n, sizes=[len(m) for m in msgs])
    outs = []
    a, b = socket.socketpair()
    def feed():
        with contextlib.suppress(OSError):
            b.sendall(stream[:n])
            b.shutdown(socket.SHUT_WR)
    t = threading.Thread(target=feed, daemon=True)
    if n > 60000:                     # may not fit into the socket's buffer
        t.start()
    else:
        feed()
    wrap = MitmChannel if rng.random() < 0.2 else lambda x: x
    try:
        with watchdog():
            if kind == 'socket':
                with net.Driver() as d:
                    ch = wrap(SocketChannel(a))
                    outs = [d.call(api, ch, 'read') for _ in range(len(want) + 3)]
            else:
                loop = net.MonLoop()
                loop.real_io = 1
                asyncio.set_event_loop(loop)
                try:
                    r, w = loop.run_until_complete(open_saltchannel_connection(sock=a))
                    ch = wrap(AsyncioChannel(r, w))
                    for _ in range(len(want) + 3):
                        try:
                            if api == 'sync':
                                outs.append(net.Outcome('ok', ch.read_sync()))
                            else:
                                outs.append(net.Outcome('ok', loop.run_until_complete(ch.read())))
                        except Exception as e:
                            outs.append(net.Outcome('exc', e))
                    w.transport.abort()
                    loop.run_until_complete(asyncio.sleep(0))
                finally:
                    loop.close()
                    asyncio.set_event_loop(None)
    except Hang:
        return ctx.violation('read hangs (or loops) at the end of the stream', key='bare-hang-' + kind, **info)
    finally:
        a.close()
        if n > 60000:
            t.join(10)
        b.close()
    ctx.ev('bare_streams')
    if left:
        ctx.ev('cuts_inside_message')
    ctx.case(('bare', kind, api, stream, n))
    for i, o in enumerate(outs):
        if i < len(want):
            if not o.ok or bytes(o.value) != want[i]:
                return ctx.violation('a message that arrived completely is not read', key='bare-lost-' + kind, index=i, outcome=repr(o), **info)
        elif o.ok:
            return ctx.violation('read succeeds although the message never arrived completely', key='bare-success-' + kind, got=o.value, **info)
        elif not isinstance(o.value, ComException):
            return ctx.fail_exc('read at the end of the stream does not raise ComException', o.value, key='bare-type-' + kind, **info)
        else:
            ctx.ev('com_exceptions')


# ------------------------------------------------------------------ two real parties, message transport

def pair_case(ctx, rng, api):
    cfg = sess.Cfg(rng)
    sess.random_times(cfg, rng)
    cfg.buf4 = cfg.buf4 and rng.random() < 0.5
    plan = [(rng.choice('cs'), [gen.fill(rng, rng.choice([0, 1, 20, 60])) for _ in range(rng.choice([1, 1, 2, 4]))]) for _ in range(rng.randrange(0, 7))]
    if cfg.buf4:
        plan.insert(0, ('c', [b'first']))
    link = net.Link(rng if api == 'async' else None, rng.choice([0, 2]))
    kind = rng.choice(['cut', 'cut', 'cut_refuse', 'wfail', 'wfail'])
    refused = lambda: net.Cut('write refused')
    if rng.random() < 0.4:                 # a transport with exceptions of its own: the call may raise them, but not succeed
        refused = link.eof = lambda: net.fault(rng)
        ctx.ev('foreign_exceptions')
    side = rng.choice('cs')
    at = rng.randrange(0, 2 + len(plan))
    gone = []

    def dead():
        gone.append(1)
        for x in 'cs':
            link.closed[x] = True
            link._notify(x)
    if kind == 'wfail':
        def fail(n):
            if n >= at or gone:
                if not gone:
                    dead()
                return refused()
            return None
        link.wfail[side] = fail
        link.wfail[link.other(side)] = lambda n: refused() if gone else None
    else:
        # messages from 'side' number 'at' and later never arrive, and then nothing does in either direction
        def filt(i, raw):
            if i >= at:
                if not gone:
                    dead()
                return []
            return [raw]
        link.filter[side] = filt
        link.filter[link.other(side)] = lambda i, raw: [] if gone else [raw]
        if kind == 'cut_refuse':
            for x in 'cs':
                link.wfail[x] = lambda n: refused() if gone else None
    got = {'c': [], 's': []}
    hs = {'c': None, 's': None}
    seen = {}

    async def party(w):
        s = cfg.client(net.AsyncEnd(link, w)) if w == 'c' else cfg.server(net.AsyncEnd(link, w))
        await s.handshake()
        hs[w], seen[w] = True, link.delivered[w]
        for d, b in plan:
            if d == w:
                await s.app_channel.write(*b)
            else:
                for _ in b:
                    got[w].append(bytes(await s.app_channel.read()))

    def party_sync(w):
        s = cfg.client(net.SyncEnd(link, w)) if w == 'c' else cfg.server(net.SyncEnd(link, w))
        s.handshake_sync()
        hs[w], seen[w] = True, link.delivered[w]
        for d, b in plan:
            if d == w:
                s.app_channel.write_sync(*b)
            else:
                for _ in b:
                    got[w].append(bytes(s.app_channel.read_sync()))
    if api == 'async':
        res = net.run_async({'c': lambda: party('c'), 's': lambda: party('s')})
    else:
        res = net.run_threads(link, {'c': lambda: party_sync('c'), 's': lambda: party_sync('s')})
    info = dict(kind=kind, side=side, at=at, api=api, options=cfg.options(), plan=[(d, len(b)) for d, b in plan], outcomes={w: repr(o) for w, o in res.items()})
    ctx.ev('message_cuts')
    if kind == 'wfail':
        ctx.ev('write_refusals')
    ctx.case((kind, side, at, api, cfg.key(), len(plan)))
    ctx.state((kind, side, at, [(d, len(b)) for d, b in plan], [res[w].brief() for w in 'cs'], link.delivered['c'], link.delivered['s']))
    for w in 'cs':
        o = res[w]
        if o.kind == 'stuck':
            return ctx.violation('a party hangs on a broken connection', key='pair-hang-' + kind, party=w, **info)
        if o.kind == 'exc':
            if not isinstance(o.value, ComException) and not getattr(o.value, 'injected', False):
                return ctx.fail_exc('a broken connection does not raise ComException', o.value, key='pair-type-' + type(o.value).__name__, party=w, **info)
            ctx.ev('com_exceptions')
        want = [m for d, b in plan if d != w for m in b]
        if got[w] != want[:len(got[w])]:
            return ctx.violation('messages before the break are not a prefix of those sent', key='pair-prefix', party=w, expected=want, got=got[w], **info)
        if o.ok and got[w] != want:
            return ctx.violation('success without the data', key='pair-success', party=w, **info)
        ctx.ev('prefix_deliveries', len(got[w]))
        if hs[w] and seen[w] < 2:
            return ctx.violation('a handshake reports success although its last needed message did not arrive', key='pair-hs', party=w, delivered=seen[w], **info)
        if not hs[w]:
            ctx.ev('refused_handshakes')
        if not gone and not o.ok:
            return ctx.violation('failure without a break', key='pair-nobreak', party=w, **info)
    if kind == 'wfail' and gone and res[side].ok:
        return ctx.violation('a write refused by the transport reports success', key='pair-refused', **info)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        for rep in range(ctx.scale(3, 20)):
            for role in ('client', 'server', 'a1'):
                seed = 'c22/%d/%s/%d' % (ctx.seed, role, rep)
                total = sum(len(m) + 4 for m in Script(seed, role).incoming)
                for n in ctx.share(list(range(total + 1))):
                    for case in (socket_case, asyncio_case):
                        for close in (False, True):
                            for api in ('sync', 'async'):
                                case(ctx, seed, role, n, api, close)
        for _ in range(ctx.scale(3, 60)):
            msgs = [gen.fill(rng, rng.choice([0, 1, 2, 3, 5, 9, 30])) for _ in range(rng.randrange(1, 4))]
            for n in range(sum(len(m) + 4 for m in msgs) + 1):
                for kind in ('socket', 'asyncio'):
                    for api in ('sync', 'async'):
                        bare(ctx, rng, msgs, n, kind, api)
        for _ in range(ctx.scale(40, 800)):
            msgs = [gen.fill(rng, rng.choice([4096, 65535, 65536, 65537, 70000, 131072, 140000, rng.randrange(140000)]))]
            if rng.random() < 0.3:
                msgs.insert(0, b'small')
            total = sum(len(m) + 4 for m in msgs)
            cut = rng.choice([total - 1, total - 2, total - 17, total - len(msgs[-1]) + rng.randrange(len(msgs[-1])), total - len(msgs[-1]), total,
                              min(total, total - len(msgs[-1]) + rng.choice([1, 4096, 65535, 65536, 65537, 131072]))])
            bare(ctx, rng, msgs, cut, rng.choice(['socket', 'asyncio']), rng.choice(['sync', 'async']))
            ctx.ev('large_cuts')
        for i in range(ctx.scale(150, 5000)):
            role = rng.choice(['client', 'server'])
            seed = rng.random()
            total = sum(len(m) + 4 for m in Script(seed, role).incoming)
            rng.choice([socket_case, asyncio_case])(ctx, seed, role, rng.randrange(total + 1), rng.choice(['sync', 'async']), rng.random() < 0.4)
        for i in range(ctx.scale(60, 1500)):
            for kind in ('asyncio', 'socket'):
                for api in ('sync', 'async'):
                    reset_case(ctx, rng, kind, api)
                    reset_inside(ctx, rng, kind, api)
        for i in range(ctx.scale(500, 12000)):
            pair_case(ctx, rng, 'async' if i % 4 else 'sync')
