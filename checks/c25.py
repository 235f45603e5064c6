"""C25 The in-process tunnels deliver like a network."""
import asyncio
import contextlib
import os
import random
import signal
import sys
import threading
import time

from saltchannel.channel import ByteChannel
from saltchannel.dev.tunnel import Tunnel, TunnelMP

from vlib import gen, net, sess

PROP = 'C25'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'histories': 1000, 'messages_delivered': 40000, 'thread_groups': 100, 'process_groups': 60, 'sessions': 200, 'process_sessions': 30, 'large_messages': 100,
           'empty_messages': 2000, 'backlogs': 10, 'huge_messages': 7, 'buffers_reused': 1000, 'oracle_evaluations': 1000}
RULE = ('one evaluation = one history of writes and reads on one or more tunnels (one thread, two threads per end, two processes) or one complete session over a tunnel, every message '
        'read compared with the message written; distinct = distinct histories')
IDLE = 90          # seconds without any progress of a purely local exchange: somebody waits for a message that was lost


class Hang(BaseException):
    pass


@contextlib.contextmanager
def watch():
    """A blocking call of this (main) thread that makes no progress is reported, not waited for."""
    def on(sig, frm):
        raise Hang()
    signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, IDLE)
    try:
        yield lambda: signal.setitimer(signal.ITIMER_REAL, IDLE)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def call(loop, api, ch, name, *a, **kw):
    if api == 'sync':
        return getattr(ch, name + '_sync')(*a, **kw)
    return loop.run_until_complete(getattr(ch, name)(*a, **kw))


def message(rng, big):
    r = rng.random()
    if r < 0.15:
        m = b''
    elif r < 0.9 or not big:
        m = gen.fill(rng, rng.randrange(1, 200))
    else:
        m = gen.fill(rng, rng.choice([4096, 16383, 16384, 16385, 65535, 65536, 70000, 300000, rng.randrange(1, 70000), rng.choice(gen.sizes(300000))] + [1 << 20] * (rng.random() < 0.1)))
    return bytearray(m) if rng.random() < 0.3 else m


def history(ctx, rng):
    """One thread, several tunnels, both directions, both APIs."""
    kinds = [rng.choice([Tunnel, TunnelMP]) for _ in range(rng.choice([1, 1, 2, 3]))]
    trace, bad = [], None
    ctx.ev('histories')
    with net.own_loop() as loop:
        tunnels = [k() for k in kinds]
        ends = [{'1': t.channel1, '2': t.channel2} for t in tunnels]
        ctx.check(all(isinstance(e, ByteChannel) for p in ends for e in p.values()), 'the ends of a tunnel are not ByteChannels', key='type')
        want = [{'1': [], '2': []} for _ in tunnels]
        try:
            with watch() as ping:
                for _ in range(rng.randrange(5, 40)):
                    i = rng.randrange(len(tunnels))
                    e = rng.choice('12')
                    o = '2' if e == '1' else '1'
                    api = rng.choice(['sync', 'async'])
                    ping()
                    outstanding = sum(len(m) + 300 for m in want[i][o])
                    big = kinds[i] is Tunnel
                    if rng.random() < 0.55 and (big or outstanding < 30000):
                        msgs = [message(rng, big) for _ in range(rng.choice([1, 1, 1, 2, 3, 10]))]
                        kw = {} if rng.random() < 0.5 else {'is_last': rng.random() < 0.5}
                        trace.append((i, e, 'w', len(msgs)))
                        call(loop, api, ends[i][e], 'write', *msgs, **kw)
                        want[i][o] += [bytes(m) for m in msgs]
                        for m in msgs:
                            if isinstance(m, bytearray) and m and rng.random() < 0.5:      # the writer uses its buffer again
                                m[rng.randrange(len(m))] ^= 0xff
                                if rng.random() < 0.3:
                                    m.clear()
                                ctx.ev('buffers_reused')
                        ctx.ev('empty_messages', sum(1 for m in msgs if not m))
                        ctx.ev('large_messages', sum(1 for m in want[i][o][-len(msgs):] if len(m) > 60000))
                    elif want[i][e]:
                        trace.append((i, e, 'r'))
                        x = want[i][e].pop(0)
                        got = call(loop, api, ends[i][e], 'read')
                        ctx.ev('messages_delivered')
                        if bytes(got) != x:
                            bad = (i, e, got, x)
                            break
                if not bad:
                    for i, p in enumerate(want):
                        for e in '12':
                            while p[e] and not bad:
                                ping()
                                x = p[e].pop(0)
                                got = call(loop, rng.choice(['sync', 'async']), ends[i][e], 'read')
                                ctx.ev('messages_delivered')
                                if bytes(got) != x:
                                    bad = (i, e, got, x)
        except Hang:
            ctx.violation('reading from a tunnel hangs although the message was written', key='hang-1', kinds=[k.__name__ for k in kinds], trace=trace[-10:])
            return
        except Exception as ex:
            ctx.fail_exc('a tunnel fails', ex, key='fails-%s' % type(ex).__name__, kinds=[k.__name__ for k in kinds], trace=trace[-10:])
            return
        ctx.case(('history', [k.__name__ for k in kinds], trace))
        ctx.state(trace)
        if bad:
            i, e, got, x = bad
            ctx.violation('a tunnel delivers the wrong message', key='wrong', kind=kinds[i].__name__, end=e, got=got, expected=x, trace=trace[-10:])
        ctx.ev('oracle_evaluations')


def flow(rng, n, big):
    """Batches of messages for one direction, the same in every process for the same seed."""
    out = []
    for _ in range(n):
        out.append([message(rng, big) for _ in range(rng.choice([1, 1, 2, 5]))])
    return out


def wait_progress(ctx, parts, progress):
    """True when all parts end; False when nothing moved for IDLE seconds."""
    last, t0 = None, time.time()
    while any(p.is_alive() for p in parts):
        for p in parts:
            p.join(0.2)
            if p.is_alive():
                break
        now = tuple(progress)
        if now != last:
            last, t0 = now, time.time()
        elif time.time() - t0 > IDLE:
            return False
    return True


def threads(ctx, rng):
    """A writer and a reader thread on each end."""
    kind = rng.choice([Tunnel, TunnelMP])
    n = rng.choice([5, 20, 60])
    big = rng.random() < 0.5
    flows = {'1': flow(rng, n, big), '2': flow(rng, n, big)}
    with net.own_loop():
        t = kind()
    ends = {'1': t.channel1, '2': t.channel2}
    sem = {'1': threading.Semaphore(0), '2': threading.Semaphore(0)}      # messages available to each end (a Tunnel's read does not wait)
    progress = [0, 0, 0, 0]
    bad = []
    quit_ = []

    def writer(e, slot, r):
        loop = asyncio.new_event_loop()
        try:
            o = '2' if e == '1' else '1'
            for b in flows[e]:
                call(loop, r.choice(['sync', 'async']), ends[e], 'write', *b)
                sem[o].release(len(b))
                progress[slot] += 1
                if r.random() < 0.2:
                    time.sleep(0)
        except BaseException as ex:
            bad.append(('write', e, ex))
        finally:
            loop.close()

    def reader(e, slot, r):
        loop = asyncio.new_event_loop()
        try:
            o = '2' if e == '1' else '1'
            for x in (m for b in flows[o] for m in b):
                if kind is Tunnel:
                    while not sem[e].acquire(timeout=5):
                        if quit_ or bad:
                            return
                got = call(loop, r.choice(['sync', 'async']), ends[e], 'read')
                progress[slot] += 1
                if bytes(got) != bytes(x):
                    bad.append(('order', e, bytes(got), bytes(x)))
                    return
        except BaseException as ex:
            bad.append(('read', e, ex))
        finally:
            loop.close()
    sw = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-4, 0.005]))
    try:
        ts = [threading.Thread(target=f, args=(e, i, random.Random(rng.random())), daemon=True)
              for i, (f, e) in enumerate([(writer, '1'), (writer, '2'), (reader, '1'), (reader, '2')])]
        for x in ts:
            x.start()
        ok = wait_progress(ctx, ts, progress)
    finally:
        quit_.append(1)
        sys.setswitchinterval(sw)
    ctx.ev('thread_groups')
    ctx.ev('messages_delivered', progress[2] + progress[3])
    ctx.ev('large_messages', sum(1 for f in flows.values() for b in f for m in b if len(m) > 60000))
    ctx.case(('threads', kind.__name__, n, big, [len(b) for b in flows['1']]))
    report(ctx, 'threads', kind, bad, ok, progress)


def report(ctx, how, kind, bad, ok, progress):
    ctx.ev('oracle_evaluations')
    if bad:
        what, e, *rest = bad[0]
        if what == 'order':
            ctx.violation('a tunnel used from %s delivers the wrong message' % how, key=how + '-wrong', kind=kind.__name__, end=e, got=rest[0], expected=rest[1])
        else:
            ctx.fail_exc('a tunnel used from %s fails on %s' % (how, what), rest[0], key=how + '-' + type(rest[0]).__name__, kind=kind.__name__, end=e)
    elif not ok:
        ctx.violation('a tunnel used from %s loses messages: nobody makes progress' % how, key=how + '-hang', kind=kind.__name__, progress=list(progress))


def fork(body):
    """Runs body() in a forked child -> (pid, read end of a pipe with its report)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.close(r)
            try:
                text = body() or 'ok'
            except BaseException as e:
                text = 'exc %s: %s' % (type(e).__name__, e)
            os.write(w, text.encode()[:3000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def reap(pid, r):
    """Ends the child; -> its report"""
    with contextlib.suppress(OSError):
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    text = b''
    with contextlib.suppress(OSError):
        while True:
            d = os.read(r, 4096)
            if not d:
                break
            text += d
    os.close(r)
    return text.decode('utf-8', 'replace')


def processes(ctx, rng):
    """Parent and child each own one end of a TunnelMP; alternating bursts, so that neither fills the pipe while the other writes."""
    seed = rng.random()
    n = rng.choice([3, 10, 30])
    child_end = rng.choice('12')
    with net.own_loop():
        t = TunnelMP()
    ends = {'1': t.channel1, '2': t.channel2}
    plan = random.Random(seed)
    turns = [(plan.choice('12'), [message(plan, True) for _ in range(plan.choice([1, 2, 5]))]) for _ in range(n)]
    turns += [('1', [b'end1']), ('2', [b'end2'])]

    def play(e, ping, r):
        loop = asyncio.new_event_loop()
        try:
            for who, b in turns:
                ping()
                if who == e:
                    call(loop, r.choice(['sync', 'async']), ends[e], 'write', *b)
                else:
                    for x in b:
                        got = call(loop, r.choice(['sync', 'async']), ends[e], 'read')
                        if bytes(got) != bytes(x):
                            return 'got %s, expected %s' % (bytes(got)[:40].hex(), bytes(x)[:40].hex())
        finally:
            loop.close()
    s1, s2 = random.Random(rng.random()), random.Random(rng.random())
    pid, r = fork(lambda: play(child_end, lambda: None, s1))
    hang, res, exc = False, None, None
    try:
        with watch() as ping:
            res = play('2' if child_end == '1' else '1', ping, s2)
            os.set_blocking(r, True)
            mine = os.read(r, 4000).decode('utf-8', 'replace') if res is None else ''
    except Hang:
        hang, mine = True, ''
    except Exception as e:
        exc, mine = e, ''
    rest = reap(pid, r)
    child = mine or rest
    ctx.ev('process_groups')
    ctx.ev('messages_delivered', sum(len(b) for _, b in turns))
    ctx.ev('large_messages', sum(1 for _, b in turns for m in b if len(m) > 60000))
    ctx.case(('processes', child_end, [(w, len(b)) for w, b in turns]))
    ctx.ev('oracle_evaluations')
    if exc is not None:
        ctx.fail_exc('a TunnelMP used by two processes fails', exc, key='proc-' + type(exc).__name__, child=child)
    elif res or (child and child != 'ok'):
        ctx.violation('a TunnelMP used by two processes delivers the wrong messages', key='proc-wrong', parent=res, child=child)
    elif hang:
        ctx.violation('a TunnelMP used by two processes loses messages: nobody makes progress', key='proc-hang', child=child)


class Patient(ByteChannel):
    """A Tunnel's read does not wait for data; a session needs a channel that does."""
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    async def read(self):
        for _ in range(20000):
            try:
                return await self.inner.read()
            except IndexError:
                await asyncio.sleep(0)
        raise net.Cut('nothing arrives')

    async def write(self, msg, *args, is_last=False):
        await self.inner.write(msg, *args, is_last=is_last)


def talk(rng):
    """(batches of the client, batches of the server), exchanged in turn"""
    n = rng.randrange(1, 6)
    return [gen.batch(rng, 5, 200, 2000) for _ in range(n)], [gen.batch(rng, 5, 200, 2000) for _ in range(n)]


def backlog(ctx, rng, n):
    """Very many messages wait in a Tunnel before any is read."""
    with net.own_loop() as loop:
        t = Tunnel()
        ends = {'1': t.channel1, '2': t.channel2}
        w, r = rng.choice(['12', '21'])
        sent = 0
        try:
            while sent < n:
                k = rng.choice([1, 1, 10, 500])
                call(loop, rng.choice(['sync', 'async']) if k > 1 else 'sync', ends[w], 'write', *[b'%d' % i for i in range(sent, sent + k)])
                sent += k
                if rng.random() < 0.01:
                    call(loop, 'sync', ends[r], 'write', b'back')
                    if call(loop, 'sync', ends[w], 'read') != b'back':
                        return ctx.violation('a tunnel with a long backlog mixes its directions', key='backlog-mix', sent=sent)
            for i in range(sent):
                got = call(loop, 'sync', ends[r], 'read')
                if bytes(got) != b'%d' % i:
                    return ctx.violation('a tunnel with a long backlog delivers the wrong message', key='backlog', sent=sent, index=i, got=got)
        except Exception as e:
            return ctx.fail_exc('a tunnel with a long backlog fails', e, key='backlog-' + type(e).__name__, sent=sent)
    ctx.ev('backlogs')
    ctx.ev('messages_delivered', sent)
    ctx.case(('backlog', sent))


def huge(ctx, rng, size):
    """One very large message over a TunnelMP, between two threads."""
    with net.own_loop():
        t = TunnelMP()
    w, r = rng.choice([(t.channel1, t.channel2), (t.channel2, t.channel1)])
    msg = gen.fill(rng, 4096) * (size // 4096) + gen.fill(rng, size % 4096)
    msgs = [b'before', msg, b'', b'after']
    got, bad, progress = [], [], [0, 0]

    def writer():
        try:
            w.write_sync(*msgs)
        except BaseException as e:
            bad.append(('write', '', e))

    def reader():
        try:
            for x in msgs:
                g = r.read_sync()
                progress[0] += 1
                if bytes(g) != x:
                    bad.append(('order', '', bytes(g)[:50] + b'.. %d bytes' % len(g), x[:50] + b'.. %d bytes' % len(x)))
                    return
        except BaseException as e:
            bad.append(('read', '', e))
    ts = [threading.Thread(target=f, daemon=True) for f in (writer, reader)]
    for x in ts:
        x.start()
    ok = wait_progress(ctx, ts, progress)
    ctx.ev('huge_messages')
    ctx.case(('huge', size))
    report(ctx, 'threads', TunnelMP, bad, ok, progress)


def session_async(ctx, rng):
    cfg = sess.Cfg(rng)
    cb, sb = talk(rng)
    swap = rng.random() < 0.5

    async def go():
        t = Tunnel()
        a, b = (t.channel2, t.channel1) if swap else (t.channel1, t.channel2)
        c, s = cfg.client(Patient(a)), cfg.server(Patient(b))

        async def server():
            await s.handshake()
            got = []
            for x, y in zip(cb, sb):
                got += [bytes(await s.app_channel.read()) for _ in x]
                await s.app_channel.write(*y)
            return got
        ts = asyncio.ensure_future(server())
        await c.handshake()
        got = []
        for x, y in zip(cb, sb):
            await c.app_channel.write(*x)
            for _ in y:
                got.append(bytes(await c.app_channel.read()))
        return got, await ts, sess.agreed(cfg, c, s)
    o = sess.run1(go)
    verdict(ctx, 'Tunnel', o, cfg, cb, sb)


def verdict(ctx, how, o, cfg, cb, sb):
    ctx.ev('sessions')
    ctx.case(('session', how, cfg.key(), [len(b) for b in cb + sb]))
    if not o.ok:
        if o.kind == 'exc':
            ctx.fail_exc('a session over %s fails' % how, o.value, key='sess-%s-%s' % (how, type(o.value).__name__), options=cfg.options())
        else:
            ctx.violation('a session over %s hangs' % how, key='sess-hang-' + how, options=cfg.options())
        return
    gc, gs, bad = o.value
    flat = lambda bs: [bytes(m) for b in bs for m in b]
    ctx.ev('messages_delivered', len(gc) + len(gs))
    ctx.check(not bad and gc == flat(sb) and gs == flat(cb), 'a session over %s delivers wrong data' % how, key='sess-data-' + how, problems=bad, options=cfg.options())


def party_sync(cfg, role, ch, cb, sb):
    """One side of a blocking session -> messages read"""
    s = cfg.client(ch) if role == 'c' else cfg.server(ch)
    s.handshake_sync()
    got = []
    for x, y in zip(cb, sb):
        if role == 'c':
            s.app_channel.write_sync(*x)
            got += [bytes(s.app_channel.read_sync()) for _ in y]
        else:
            got += [bytes(s.app_channel.read_sync()) for _ in x]
            s.app_channel.write_sync(*y)
    return got, s


def session_threads(ctx, rng):
    cfg = sess.Cfg(rng)
    cb, sb = talk(rng)
    with net.own_loop():
        t = TunnelMP()
    ends = [t.channel1, t.channel2]
    rng.shuffle(ends)
    res = {}

    def body(role, ch):
        try:
            res[role] = net.Outcome('ok', party_sync(cfg, role, ch, cb, sb))
        except Exception as e:
            res[role] = net.Outcome('exc', e)
        finally:
            with contextlib.suppress(Exception):
                asyncio.get_event_loop_policy().get_event_loop().close()
    ts = [threading.Thread(target=body, args=(r, ch), daemon=True) for r, ch in zip('cs', ends)]
    for x in ts:
        x.start()
    t0 = time.time()
    while any(x.is_alive() for x in ts) and time.time() - t0 < IDLE:
        for x in ts:
            x.join(0.2)
        if any(not o.ok for o in res.values()):
            break
    bad = [o for o in res.values() if not o.ok]
    if bad:
        o = bad[0]
    elif len(res) < 2:
        o = net.Outcome('stuck')
    else:
        (gc, c), (gs, s) = res['c'].value, res['s'].value
        o = net.Outcome('ok', (gc, gs, sess.agreed(cfg, c, s)))
    verdict(ctx, 'TunnelMP', o, cfg, cb, sb)


def session_process(ctx, rng):
    """The server in a child process."""
    cfg = sess.Cfg(rng)
    cb, sb = talk(rng)
    with net.own_loop():
        t = TunnelMP()
    ends = [t.channel1, t.channel2]
    rng.shuffle(ends)
    flat = lambda bs: [bytes(m) for b in bs for m in b]

    def child():
        asyncio.set_event_loop(asyncio.new_event_loop())
        got, s = party_sync(cfg, 's', ends[1], cb, sb)
        if got != flat(cb):
            return 'wrong messages'
        if bytes(s.client_sig_key) != cfg.csig[1] or bytes(s.session_key) != cfg.session_key:
            return 'wrong keys'
    pid, r = fork(child)
    child_says, got, exc, hang = '', None, None, False
    try:
        with watch(), net.own_loop():
            got, c = party_sync(cfg, 'c', ends[0], cb, sb)
            child_says = os.read(r, 4000).decode('utf-8', 'replace')
    except Hang:
        hang = True
    except Exception as e:
        exc = e
    rest = reap(pid, r)
    child_says = child_says or rest
    ctx.ev('process_sessions')
    ctx.case(('session-process', cfg.key(), [len(b) for b in cb + sb]))
    ctx.ev('oracle_evaluations')
    if exc is not None:
        ctx.fail_exc('a session between processes over TunnelMP fails', exc, key='psess-' + type(exc).__name__, child=child_says, options=cfg.options())
    elif hang:
        ctx.violation('a session between processes over TunnelMP hangs', key='psess-hang', child=child_says, options=cfg.options())
    elif child_says != 'ok' or got != flat(sb):
        ctx.violation('a session between processes over TunnelMP delivers wrong data', key='psess-data', child=child_says, options=cfg.options())
    else:
        ctx.ev('messages_delivered', len(flat(cb)) + len(flat(sb)))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        for _ in range(ctx.scale(60, 1000)):          # processes first: no threads exist yet
            processes(ctx, rng)
            session_process(ctx, rng)
        for _ in range(ctx.scale(1500, 20000)):
            history(ctx, rng)
        for _ in range(ctx.scale(250, 4000)):
            session_async(ctx, rng)
        for _ in range(ctx.scale(100, 2000)):
            session_threads(ctx, rng)
            threads(ctx, rng)
        for _ in range(ctx.scale(2, 20)):
            backlog(ctx, rng, rng.choice([3000, 20000, 70000, 140000]))
        if ctx.only(1):
            backlog(ctx, rng, 140000)
        for k, size in enumerate([1 << 20, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, 1 << 25, (1 << 26) + 3]):
            if ctx.mine(k):
                huge(ctx, rng, size)
