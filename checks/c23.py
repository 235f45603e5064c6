"""C23 The bundled example and echo sessions work and reproduce the reference data."""
import asyncio
import contextlib
import importlib
import io
import logging
import os
import random
import re
import socket
import struct
import subprocess
import threading
import time

from vlib import core, gen, net, ref, sess

PROP = 'C23'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'sync_connections': 60, 'async_connections': 100, 'runner_sessions': 40, 'wire_messages_compared': 500, 'echoed_messages': 300, 'parallel_groups': 8,
           'main_programs': 3, 'abrupt_clients': 100, 'foreign_clients': 100, 'slow_clients': 5}
RULE = ('one evaluation = one connection of a bundled session (in process over sockets through a recording, byte-chopping relay; through the bundled runners; or as a program), '
        'its complete wire data compared with the reference session; distinct = distinct (session, way of running, group)')
SYNC = ['example_session1', 'example_session2', 'example_session3', 'simple_echo_session']
ASYNC = [n + '_a' for n in SYNC]

A_SIG = ref.sig_keys(bytes.fromhex('55f4d1d198093c84de9ee9a6299e0f6891c2e1d0b369efb592a9e3f169fb0f79'))
B_SIG = ref.sig_keys(bytes.fromhex('7a772fa9014b423300076a2ff646463952f141e2aa8d98263c690c0d72eed52d'))
A_ENC = ref.enc_keys(bytes.fromhex('77076d0a7318a57d3c16c17251b26645df4c2f87ebc0992ab177fba51db92c2a'))
B_ENC = ref.enc_keys(bytes.fromhex('5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb'))
KEY = '1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389'
REQ = bytes.fromhex('010505050505')
R21, R22 = bytes.fromhex('0104040404'), bytes.fromhex('03030303')


def reference(name):
    """The messages of the reference session: (client to server, server to client)"""
    base = name[:-2] if name.endswith('_a') else name
    if base == 'example_session2':
        return [ref.a1(1, b'\x08' * 32)], [ref.a2([(b'SCv2------', b'ECHO------')])]
    t = [0, 0, 0, 0] if base == 'example_session1' else [1, 2, 3, 4]
    c, s = ref.RefClient(A_SIG, A_ENC), ref.RefServer(B_SIG, B_ENC)
    out_c, out_s = [c.hello(t[0])], []
    s.on_m1(out_c[0])
    out_s += [s.hello(t[0]), s.m3(t[1])]
    c.on_m2(out_s[0])
    c.on_m3(out_s[1])
    out_c.append(c.m4(t[1]))
    s.on_m4(out_c[1])
    if base == 'example_session1':
        out_c.append(c.sec.seal(ref.app(0, REQ), True))
        out_s.append(s.sec.seal(ref.app(0, REQ), False))
    else:
        out_c += [c.sec.seal(ref.app(3, REQ), False), c.sec.seal(ref.multi(4, [R21, R22]), False)]
        out_s += [s.sec.seal(ref.app(3, REQ), False), s.sec.seal(ref.multi(4, [R21, R22]), True)]
    if s.key.hex() != KEY:
        raise core.Inconclusive('reference data')
    return out_c, out_s


def unframe(stream):
    out, pos = [], 0
    while pos + 4 <= len(stream):
        n = struct.unpack_from('<i', stream, pos)[0]
        if n < 0 or pos + 4 + n > len(stream):
            break
        out.append(bytes(stream[pos + 4:pos + 4 + n]))
        pos += 4 + n
    return out, bytes(stream[pos:])


def judge(ctx, name, how, c2s, s2c, **info):
    """c2s, s2c: lists of messages on the wire of one connection."""
    if name.startswith('simple_echo'):
        data = [m for m in c2s if m]
        ctx.ev('echoed_messages', len(data))
        if name.endswith('_a') and (not c2s or c2s[-1] != b''):
            return ctx.violation('the echo client does not end its session with an empty message', key='echo-end', how=how, **info)
        if len(data) != 10 or any(len(m) != 6 for m in data) or s2c != data:
            return ctx.violation('the echo session does not echo', key='echo-' + name, how=how, sent=data, echoed=s2c, **info)
        return True
    wc, ws = reference(name)
    ctx.ev('wire_messages_compared', len(wc) + len(ws))
    for side, got, want in (('client', c2s, wc), ('server', s2c, ws)):
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            return ctx.violation('%s: the %s does not send the bytes of the reference session' % (name, side), key='wire-%s-%s' % (name, side), how=how, index=i,
                                 messages=len(got), expected_messages=len(want), got=got[i:i + 1], expected=want[i:i + 1], **info)
    return True


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def session(name):
    """A fresh session object of a bundled module; the module's logging set-up is undone."""
    with quiet():
        mod = importlib.import_module('saltchannel.dev.' + name)
    root = logging.getLogger()
    root.handlers.clear()
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.CRITICAL)
    for cls in ('ExampleSession', 'ExampleSessionA', 'SimpleEchoSession', 'SimpleEchoSessionA'):
        c = getattr(mod, cls, None)
        if c is not None and c.__module__ == mod.__name__:
            return c()
    raise core.Inconclusive('no session class in ' + name)


# ------------------------------------------------------------------ blocking sessions over sockets

def relay(rng, a, b, rec):
    """Copies a to b in pieces until a ends."""
    try:
        while True:
            d = a.recv(rng.choice([1, 2, 3, 5, 50, 4096]))
            if not d:
                break
            rec.extend(d)
            b.sendall(d)
    except OSError:
        pass
    finally:
        with contextlib.suppress(OSError):
            b.shutdown(socket.SHUT_WR)


def sync_connection(rng, sess_obj):
    """-> (c2s bytes, s2c bytes, [exceptions]) of one connection"""
    from saltchannel.channel import SocketChannel
    from saltchannel.dev.mitm_channel import MitmChannel
    c1, c2 = socket.socketpair()
    s1, s2 = socket.socketpair()
    for x in (c1, s1):
        x.settimeout(120)
    up, down, errs = bytearray(), bytearray(), []
    rng1, rng2 = random.Random(rng.random()), random.Random(rng.random())

    def party(who, f, sock):
        try:
            f()
        except BaseException as e:
            errs.append((who, e))
        finally:
            with contextlib.suppress(OSError):
                sock.shutdown(socket.SHUT_RDWR)
            close_loop()
    ts = [threading.Thread(target=relay, args=(rng1, c2, s2, up), daemon=True), threading.Thread(target=relay, args=(rng2, s2, c2, down), daemon=True),
          threading.Thread(target=party, args=('server', lambda: sess_obj.server_session(SocketChannel(s1)), s1), daemon=True),
          threading.Thread(target=party, args=('client', lambda: sess_obj.client_session(MitmChannel(SocketChannel(c1), log=logging.getLogger('mitm'))), c1), daemon=True)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(150)
    if any(t.is_alive() for t in ts):
        errs.append(('hang', TimeoutError('session does not end')))
    for x in (c1, c2, s1, s2):
        x.close()
    return up, down, errs


def close_loop():
    with contextlib.suppress(Exception):
        loop = asyncio.get_event_loop_policy().get_event_loop()
        if not loop.is_running():
            loop.close()


def sync_group(ctx, rng, name, n, shared):
    """n connections of one bundled session at the same time (one session object for all, or one each)."""
    obj = session(name)
    out = [None] * n

    def one(i):
        out[i] = sync_connection(random.Random(i + n), obj if shared else session(name))
    with quiet():
        ts = [threading.Thread(target=one, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if n > 1:
        ctx.ev('parallel_groups')
    for i, r in enumerate(out):
        finish(ctx, name, 'sockets', r, i, n)
        ctx.ev('sync_connections')


def finish(ctx, name, how, r, i, n):
    ctx.case((name, how, i, n, ctx.caseno))
    ctx.state((name, how, n, len(r[0]) if r else 0))
    if r is None:
        return ctx.violation('a session thread died', key='died-' + name)
    up, down, errs = r
    if errs:
        return ctx.fail_exc('%s (%s) fails on the %s side' % (name, how, errs[0][0]), errs[0][1], key='fail-%s-%s' % (name, errs[0][0]), parallel=n)
    (c2s, l1), (s2c, l2) = unframe(up), unframe(down)
    if l1 or l2:
        return ctx.violation('incomplete message on the wire', key='partial-' + name, left=(l1, l2))
    judge(ctx, name, how, c2s, s2c)


# ------------------------------------------------------------------ asyncio sessions over TCP

def async_group(ctx, rng, name, n):
    from saltchannel.dev.client_server_a import open_saltchannel_connection, start_saltchannel_server
    obj = session(name)
    conns, errs, served = [], [], []

    async def go():
        async def serve(r, w):
            try:
                await obj.server_session(r, w)
                served.append(1)
            except Exception as e:
                errs.append(('server', e))
        srv = await start_saltchannel_server(serve, '127.0.0.1', 0)
        addr = srv.sockets[0].getsockname()

        async def pump(a, b, rec):
            try:
                while True:
                    d = await a.read(rng.choice([1, 3, 10, 4096]))
                    if not d:
                        break
                    rec.extend(d)
                    b.write(d)
                    await b.drain()
                if b.can_write_eof():
                    b.write_eof()
            except (OSError, RuntimeError):
                pass

        async def accepted(r, w):
            r2, w2 = await asyncio.open_connection(*addr[:2])
            up, down = bytearray(), bytearray()
            conns.append((up, down))
            await asyncio.gather(pump(r, w2, up), pump(r2, w, down))
            w.close()
            w2.close()
        mid = await asyncio.start_server(accepted, '127.0.0.1', 0)
        port = mid.sockets[0].getsockname()[1]

        async def client():
            r, w = await open_saltchannel_connection('127.0.0.1', port)
            try:
                await obj.client_session(r, w)
            except Exception as e:
                errs.append(('client', e))
                w.close()
        await asyncio.gather(*[client() for _ in range(n)])
        for _ in range(12000):                                   # the servers finish after the clients
            if len(served) + sum(1 for e in errs if e[0] == 'server') >= n:
                break
            await asyncio.sleep(0.01)
        else:
            errs.append(('server', TimeoutError('%d of %d server sessions ended' % (len(served), n))))
        await asyncio.sleep(0)
        others = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        if others:
            await asyncio.wait(others, timeout=60)
        srv.close()
        mid.close()
    with quiet():
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(go())
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    if n > 1:
        ctx.ev('parallel_groups')
    ctx.check(errs or len(conns) == n, 'number of connections', key='conns', got=len(conns), expected=n)
    for i, (up, down) in enumerate(conns):
        finish(ctx, name, 'asyncio', (up, down, errs), i, n)
        ctx.ev('async_connections')
        if errs:
            return


# ------------------------------------------------------------------ the bundled servers with other clients

def foreign(ctx, rng, name, pause=0):
    """A client with its own identity and data talks to a bundled server; what the server echoes is what was sent."""
    from saltchannel.channel import AsyncioChannel, SocketChannel
    from saltchannel.dev.client_server_a import open_saltchannel_connection, start_saltchannel_server
    obj = session(name)
    is_async = name.endswith('_a')
    base = name[:-2] if is_async else name
    sizes = [1, 2, 5, 6, 7, 199, 200, 201, 255, 256, 1000, 4096, 65535, 65536, 70000, 200000, rng.randrange(1, 3000)]
    cfg = sess.Cfg(rng)
    cfg.ssig, cfg.senc = B_SIG, B_ENC
    msgs = [gen.fill(rng, rng.choice(sizes)) for _ in range(3 if 'example' in base else rng.choice([1, 3, 20]))]
    if 'example' in base and rng.random() < 0.3:
        msgs[rng.randrange(3)] = b''
    got, errs, info = [], [], dict(sizes=[len(m) for m in msgs], session=name, options=cfg.options())

    async def talk(ch):
        """-> the messages sent"""
        if base == 'simple_echo_session':
            for m in msgs:
                if m is msgs[-1]:
                    await asyncio.sleep(pause)
                await ch.write(m)
                got.append(bytes(await ch.read()))
            if is_async:
                await ch.write(b'')                          # ends the session
            return msgs
        c = cfg.client(ch)
        await c.handshake()
        if base == 'example_session1':
            await c.app_channel.write(msgs[0], is_last=True)
            got.append(bytes(await c.app_channel.read()))
            return msgs[:1]
        await c.app_channel.write(msgs[0])
        got.append(bytes(await c.app_channel.read()))
        await asyncio.sleep(pause)
        await c.app_channel.write(msgs[1], msgs[2], is_last=True)
        got.append(bytes(await c.app_channel.read()))
        got.append(bytes(await c.app_channel.read()))
        if not c.app_channel.last:
            errs.append(('client', AssertionError('the last message of session 3 has no LastFlag')))
        return msgs

    async def go_async():
        done = asyncio.get_running_loop().create_future()

        async def serve(r, w):
            try:
                await obj.server_session(r, w)
            except Exception as e:
                errs.append(('server', e))
            finally:
                if not done.done():
                    done.set_result(None)
        srv = await start_saltchannel_server(serve, '127.0.0.1', 0)
        r, w = await open_saltchannel_connection(*srv.sockets[0].getsockname()[:2])
        try:
            sent = await asyncio.wait_for(talk(AsyncioChannel(r, w)), 120)
            await asyncio.wait_for(done, 120)
        finally:
            w.close()
            srv.close()
            await asyncio.sleep(0)
        return sent

    def go_sync():
        a, b = socket.socketpair()
        a.settimeout(120)
        b.settimeout(120)

        def serve():
            try:
                obj.server_session(SocketChannel(b))
            except Exception as e:
                errs.append(('server', e))
            finally:
                close_loop()
        t = threading.Thread(target=serve, daemon=True)
        t.start()
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            return loop.run_until_complete(talk(SocketChannel(a)))
        finally:
            with contextlib.suppress(OSError):
                a.shutdown(socket.SHUT_RDWR)
            t.join(150)
            if t.is_alive():
                errs.append(('hang', TimeoutError('the server session does not end')))
            a.close()
            b.close()
            loop.close()
            asyncio.set_event_loop(None)
    sent = None
    with quiet():
        if is_async:
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                sent = loop.run_until_complete(go_async())
            except Exception as e:
                errs.append(('client', e))
            finally:
                loop.close()
                asyncio.set_event_loop(None)
        else:
            try:
                sent = go_sync()
            except Exception as e:
                errs.append(('client', e))
    ctx.ev('foreign_clients')
    ctx.case(('foreign', name, [len(m) for m in msgs], cfg.options(), ctx.caseno))
    if errs:
        return ctx.fail_exc('%s fails on the %s side with another client' % (name, errs[0][0]), errs[0][1], key='foreign-%s-%s' % (name, errs[0][0]), **info)
    ctx.ev('echoed_messages', len(got))
    i = next((i for i, (x, y) in enumerate(zip(got, sent)) if x != y), None)
    if i is not None or len(got) != len(sent):
        ctx.violation('%s does not echo what was sent' % name, key='foreign-echo-' + name, index=i, **info)


# ------------------------------------------------------------------ the bundled runner

class Rec:
    """Passes everything through to a channel; records complete messages."""
    def __init__(self, ch, rec, delay=0):
        self._ch, self._rec, self._delay = ch, rec, delay

    def __getattr__(self, n):
        return getattr(self._ch, n)

    def read_sync(self):
        m = self._ch.read_sync()
        self._rec.append(('r', bytes(m)))
        return m

    def write_sync(self, msg, *args, is_last=False):
        if self._delay and (self._rec or len(args)):         # a slow client
            time.sleep(self._delay)
            self._delay = 0
        self._ch.write_sync(msg, *args, is_last=is_last)
        self._rec.extend(('w', bytes(m)) for m in (msg,) + args)

    async def read(self):
        return self.read_sync()

    async def write(self, msg, *args, is_last=False):
        self.write_sync(msg, *args, is_last=is_last)


class Spied:
    def __init__(self, obj):
        self.obj, self.recs, self.errs = obj, {'c': [], 's': []}, []
        self.fragile, self.delay, self.ended = None, 0, 0

    def _run(self, side, f, channel):
        rec = []
        self.recs[side].append(rec)
        try:
            f(Rec(channel, rec, self.delay if side == 'c' else 0))
        except BaseException as e:
            self.errs.append((side, e))
            raise
        else:
            if side == 's' and self.fragile and self.fragile.random() < 0.5:
                raise RuntimeError('a session that fails')
        finally:
            if side == 'c':
                self.ended += 1          # the server thread goes on to serve other sessions
                close_loop()

    def server_session(self, channel):
        self._run('s', self.obj.server_session, channel)

    def client_session(self, channel):
        self._run('c', self.obj.client_session, channel)


def listening():
    """Ports at which this process listens (None: cannot be told)."""
    try:
        own = set()
        for f in os.listdir('/proc/self/fd'):
            with contextlib.suppress(OSError):
                t = os.readlink('/proc/self/fd/' + f)
                if t.startswith('socket:['):
                    own.add(t[8:-1])
        ports = set()
        for fam in ('tcp', 'tcp6'):
            if os.path.exists('/proc/self/net/' + fam):
                for line in open('/proc/self/net/' + fam).read().splitlines()[1:]:
                    x = line.split()
                    if x[3] == '0A' and x[9] in own:
                        ports.add(x[1])
        return ports
    except (OSError, IndexError):
        return None


def runner(ctx, rng, name, n, jitter, delay=0):
    from saltchannel.dev.client_server import MpClientServerPair
    spy = Spied(session(name))
    spy.delay = delay
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        pair = MpClientServerPair(spy)
        before = listening()
        pair.start_server()
        try:
            t = threading.Thread(target=pair.run_sessions, args=(n, jitter), daemon=True)
            t.start()
            t.join(200)
            if t.is_alive():
                return ctx.violation('%s: the runner does not end' % name, key='runner-hang-' + name, sessions=n)
            if delay and spy.ended != n:
                return ctx.violation('%s: run_sessions() returned before its sessions ended' % name, key='runner-early', ended=spy.ended, sessions=n)
            deadline = time.time() + 60
            while len(spy.recs['s']) < n and time.time() < deadline:
                time.sleep(0.01)
        finally:
            pair.stop_server()
    after = listening()
    if before is not None and after is not None:
        ctx.ev('servers_stopped')
        if after - before:
            return ctx.violation('%s: the server still listens after stop_server()' % name, key='runner-stop', ports=sorted(after - before))
    ctx.case((name, 'runner', n, jitter, ctx.caseno))
    if spy.errs:
        return ctx.fail_exc('%s fails in the runner on side %s' % (name, spy.errs[0][0]), spy.errs[0][1], key='runner-%s-%s' % (name, spy.errs[0][0]))
    if len(spy.recs['c']) != n or len(spy.recs['s']) != n:
        return ctx.violation('the runner did not run all sessions', key='runner-count', expected=n, got={k: len(v) for k, v in spy.recs.items()})
    for rec in spy.recs['c']:
        ctx.ev('runner_sessions')
        if not judge(ctx, name, 'runner', [m for d, m in rec if d == 'w'], [m for d, m in rec if d == 'r']):
            return
    for rec in spy.recs['s']:
        if not judge(ctx, name, 'runner, server side', [m for d, m in rec if d == 'r'], [m for d, m in rec if d == 'w']):
            return


def abrupt(ctx, rng, name):
    """Clients that break off in every way; afterwards (and meanwhile) the server serves others as before."""
    base = name[:-2] if name.endswith('_a') else name
    first = {'example_session2': ref.a1(0, b'')}.get(base, ref.m1(0, rng.randbytes(32))) if 'example' in base else b'abcdef'
    fr = struct.pack('<i', len(first)) + first

    def leave(addr):
        k = rng.choice(['nothing', 'cut-prefix', 'cut', 'whole', 'garbage', 'negative'])
        s = socket.create_connection(addr, timeout=60)
        try:
            if rng.random() < 0.5:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))       # close() resets the connection
            data = {'nothing': b'', 'cut-prefix': fr[:rng.randrange(1, 4)], 'cut': fr[:rng.randrange(4, len(fr))], 'whole': fr,
                    'garbage': struct.pack('<i', 40) + rng.randbytes(40), 'negative': struct.pack('<i', -rng.randrange(1, 99)) + b'xyz'}[k]
            with contextlib.suppress(OSError):
                s.sendall(data)
                if rng.random() < 0.3:
                    s.shutdown(socket.SHUT_WR)
                    s.settimeout(0.05)
                    s.recv(1000)
        finally:
            s.close()
        ctx.ev('abrupt_clients')
        return k
    kinds = []
    if not name.endswith('_a'):
        from saltchannel.dev.client_server import MpClientServerPair
        logging.disable(logging.CRITICAL)
        try:
            with quiet(), contextlib.redirect_stderr(io.StringIO()):
                spy = Spied(session(name))
                spy.fragile = rng
                pair = MpClientServerPair(spy)
                pair.start_server()
                try:
                    addr = pair.server.server_address
                    for rnd in range(3):
                        kinds += [leave(addr) for _ in range(rng.choice([1, 1, 3]))]
                        spy.recs['c'].clear()
                        t = threading.Thread(target=pair.run_sessions, args=(1, False), daemon=True)
                        t.start()
                        t.join(60)
                        if t.is_alive():
                            return ctx.violation('%s: after clients that broke off the server serves no more' % name, key='abrupt-hang', clients=kinds)
                        bad = [e for w, e in spy.errs if w == 'c']
                        if bad:
                            return ctx.fail_exc('%s: a session fails after clients that broke off' % name, bad[0], key='abrupt-' + name, clients=kinds)
                        rec = spy.recs['c'][0] if spy.recs['c'] else []
                        if not judge(ctx, name, 'after abrupt clients', [m for d, m in rec if d == 'w'], [m for d, m in rec if d == 'r'], clients=kinds):
                            return
                finally:
                    stop = threading.Thread(target=pair.stop_server, daemon=True)
                    stop.start()
                    stop.join(30)
                    if stop.is_alive():
                        return ctx.violation('%s: the server cannot be stopped' % name, key='abrupt-stop', clients=kinds)
        finally:
            logging.disable(logging.NOTSET)
    else:
        from saltchannel.dev.client_server_a import open_saltchannel_connection, start_saltchannel_server
        obj = session(name)
        errs = []

        async def go():
            asyncio.get_running_loop().set_exception_handler(lambda loop, c: None)      # what the broken sessions raise
            srv = await start_saltchannel_server(obj.server_session, '127.0.0.1', 0)
            addr = srv.sockets[0].getsockname()[:2]
            loop = asyncio.get_running_loop()
            for rnd in range(3):
                for _ in range(rng.choice([1, 1, 3])):
                    kinds.append(await loop.run_in_executor(None, leave, addr))
                r, w = await open_saltchannel_connection(*addr)
                try:
                    await asyncio.wait_for(obj.client_session(r, w), 60)
                except Exception as e:
                    errs.append(e)
                    break
                finally:
                    w.close()
            srv.close()
            for _ in range(100):
                if len(asyncio.all_tasks()) <= 1:
                    break
                await asyncio.sleep(0.01)
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
            await asyncio.sleep(0)
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                loop.run_until_complete(go())
            finally:
                loop.close()
                asyncio.set_event_loop(None)
        if errs:
            return ctx.fail_exc('%s: a session fails after clients that broke off' % name, errs[0], key='abrupt-' + name, clients=kinds)
    ctx.case(('abrupt', name, kinds, ctx.caseno))
    ctx.state(('abrupt', name, tuple(sorted(set(kinds)))))


# ------------------------------------------------------------------ as programs

def port_free():
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind(('127.0.0.1', 8888))
        return True
    except OSError:
        return False
    finally:
        s.close()


def program(ctx, name):
    if name.endswith('_a'):
        for _ in range(300):
            if port_free():
                break
            time.sleep(0.1)
        else:
            ctx.ev('port_8888_busy')
            return
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([core.PY, '-B', '-W', 'ignore', '-m', 'saltchannel.dev.' + name], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return ctx.violation('the program %s does not end' % name, key='program-hang-' + name, output=(e.stdout or b'')[-800:])
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode and 'Address already in use' in out:
        ctx.ev('port_8888_busy')
        return
    ctx.ev('main_programs')
    ctx.case((name, 'program'))
    if p.returncode or 'Traceback' in out:
        return ctx.violation('the program %s fails' % name, key='program-' + name, exit=p.returncode, output=out[-1500:])
    want = {'example_session1': [KEY, r'app response: *010505050505'], 'example_session3': [KEY, r'app_response1: *010505050505', r'app_response2: *0104040404', r'app_response3: *03030303'],
            'example_session2': ['SCv2------', 'ECHO------']}.get(name[:-2] if name.endswith('_a') else name, [])
    for w in want:
        if not re.search(w, out):
            return ctx.violation('the program %s does not report %s' % (name, w), key='report-' + name, output=out[-1500:])


def run(ctx):
    rng = ctx.rng
    if ctx.shard == ctx.nshards - 1:
        for rep in range(ctx.scale(1, 6)):
            for name in ['run_session', 'run_session_a'] + SYNC[:3] + ASYNC[:3]:
                program(ctx, name)
        return
    slow = [SYNC[0], SYNC[2], SYNC[3], ASYNC[2], ASYNC[3], SYNC[2], SYNC[3]][ctx.shard % 7]
    ctx.ev('slow_clients')
    if slow in SYNC:
        runner(ctx, rng, slow, 2, False, delay=ctx.scale(2.5, 7))
    else:
        foreign(ctx, rng, slow, pause=ctx.scale(3.5, 7))
    for rep in range(ctx.scale(3, 40)):
        for name in SYNC:
            sync_group(ctx, rng, name, 1, True)
            sync_group(ctx, rng, name, rng.choice([2, 3, 8]), rng.random() < 0.7)
        for name in ASYNC:
            async_group(ctx, rng, name, 1)
            async_group(ctx, rng, name, rng.choice([2, 4, 9]))
        for name in SYNC + ASYNC:
            if 'session2' not in name:
                for _ in range(2):
                    foreign(ctx, rng, name)
        for name in SYNC + ASYNC:
            abrupt(ctx, rng, name)
        for name in SYNC:
            runner(ctx, rng, name, rng.choice([1, 2, 5]), rng.random() < 0.1)
