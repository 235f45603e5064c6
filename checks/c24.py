"""C24 Cancelled or failed operations leave the session usable and in step."""
import asyncio
import random
import socket
import struct

from saltchannel.channel import AsyncioChannel
from saltchannel.dev.client_server_a import SaltChannelStreamReader, open_saltchannel_connection
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import ComException

from vlib import gen, net, ref, sess

PROP = 'C24'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'cancelled_reads': 5000, 'cancelled_writes': 500, 'failed_reads': 1000, 'failed_writes': 500, 'refused_writes': 1000, 'half_received': 2000, 'histories': 1000,
           'socket_histories': 60, 'messages_delivered': 20000, 'refused_first_writes': 50, 'first_write_hit': 50, 'stream_positions': 1500}
RULE = ('one evaluation = one session history with cancelled reads and writes, temporary transport failures and refused arguments, after which every accepted message was found '
        'delivered exactly once and in order; distinct = distinct histories (operations, points of interruption, options)')
JUNK = ['text', None, 7, 3.5, object(), ('t',), {'a': 1}]


class Faulty(net.AsyncEnd):
    """Takes data at once, then may suspend; reads may fail temporarily without consuming anything."""
    def __init__(self, link, who, rng):
        super().__init__(link, who)
        self.frng = rng
        self.rfail = 0.0
        self.wfail_after = 0.0

    def fault(self):
        return net.fault(self.frng, 'temporary')

    async def read(self):
        if self.frng.random() < self.rfail:
            for _ in range(self.frng.randrange(3)):
                await asyncio.sleep(0)
            raise self.fault()
        return await super().read()

    async def write(self, msg, *args, is_last=False):
        self.link.push(self.who, (msg,) + args, is_last)
        await self._jitter()
        if self.frng.random() < self.wfail_after:
            raise self.fault()


def temporary(e):
    return isinstance(e, (ComException, OSError)) or getattr(e, 'injected', False)


class World:
    """Two sessions; bookkeeping of what each direction's transport accepted."""
    def __init__(self, ctx, rng, cfg, sock=False):
        self.ctx, self.rng, self.cfg = ctx, rng, cfg
        self.link = net.Link(rng, rng.choice([0, 1, 3, 6]))
        self.want = {'c': [], 's': []}       # messages accepted for delivery to each side
        self.got = {'c': [], 's': []}
        self.trace = []

    async def interrupt(self, coro, steps):
        """Run coro as a task, cancel it after some loop steps -> Outcome ('stuck' = cancelled)"""
        t = asyncio.ensure_future(coro)
        for _ in range(steps):
            if t.done():
                break
            await asyncio.sleep(0)
        t.cancel()
        try:
            return net.Outcome('ok', await t)
        except asyncio.CancelledError:
            return net.Outcome('stuck')
        except Exception as e:
            return net.Outcome('exc', e)


def other(w):
    return 's' if w == 'c' else 'c'


def fail(ctx, wd, what, **info):
    ctx.violation(what, key=what[:60], trace=wd.trace[-10:], options=wd.cfg.options(), **info)
    return False


async def one_write(ctx, wd, app, end, w, rng, accepted):
    """One write of side w, normal or disturbed. accepted() -> number of write calls the transport took so far. -> ok"""
    msgs = gen.batch(rng, 6, 120, 600)
    if rng.random() < 0.06:
        msgs = [gen.message(rng, 20) for _ in range(rng.choice([10, 20, 50, 100, 300]))]
    if rng.random() < 0.03:
        msgs[-1] = gen.fill(rng, 70000)
    r = rng.random()
    first = w == 'c' and wd.cfg.buf4 and not wd.first
    n0 = accepted()
    if r < 0.15:
        bad = list(msgs)
        bad.insert(rng.randrange(len(bad) + 1), rng.choice(JUNK))
        if rng.random() < 0.3:
            bad = [rng.choice(JUNK)]
        wd.trace.append((w, 'refused', len(bad)))
        try:
            await app.write(*bad)
            ctx.ev('junk_accepted')
            return False                               # it took something that is not bytes: nothing to judge here
        except Exception:
            pass
        ctx.ev('refused_writes')
        if first:
            ctx.ev('refused_first_writes')
        if accepted() != n0:
            return fail(ctx, wd, 'a write that was refused because of its arguments sent something', side=w)
        return True
    if r < 0.45:
        steps = rng.randrange(0, 5)
        o = await wd.interrupt(app.write(*msgs), steps)
        wd.trace.append((w, 'cancel-write', steps, o.kind))
    else:
        try:
            o = net.Outcome('ok', await app.write(*msgs))
        except Exception as e:
            o = net.Outcome('exc', e)
        wd.trace.append((w, 'write', len(msgs), o.kind))
    took = accepted() != n0
    if o.kind == 'exc' and not temporary(o.value):
        ctx.fail_exc('write() failed', o.value, key='write-' + type(o.value).__name__, trace=wd.trace[-8:], options=wd.cfg.options())
        return False
    if o.ok and not took:
        return fail(ctx, wd, 'a write reports success, but the transport got nothing', side=w)
    if o.kind == 'stuck':
        ctx.ev('cancelled_writes')
    if o.kind == 'exc':
        ctx.ev('failed_writes')
    if first and took:
        wd.first = True
        if not o.ok:
            ctx.ev('first_write_hit')
    if took:
        wd.want[other(w)].extend(bytes(m) for m in msgs)
    return True


async def one_read(ctx, wd, app, w, rng, patient):
    """One read of side w; -> ok. patient: data is there, so it must arrive in the end."""
    o = None
    r = rng.random()
    if r < (0.3 if patient else 1.0):
        steps = rng.randrange(0, 6)
        if rng.random() < 0.3:
            try:
                o = net.Outcome('ok', await asyncio.wait_for(app.read(), rng.choice([0, 0.001, 1])))
            except (asyncio.TimeoutError, TimeoutError):
                o = net.Outcome('stuck')
            except Exception as e:
                o = net.Outcome('exc', e)
        else:
            o = await wd.interrupt(app.read(), steps)
        wd.trace.append((w, 'cancel-read', o.kind))
    else:
        try:
            o = net.Outcome('ok', await app.read())
        except Exception as e:
            o = net.Outcome('exc', e)
        wd.trace.append((w, 'read', o.kind))
    if o.kind == 'stuck':
        ctx.ev('cancelled_reads')
        return True
    if o.kind == 'exc':
        if not temporary(o.value):
            ctx.fail_exc('read() after an interrupted operation failed', o.value, key='read-' + type(o.value).__name__, trace=wd.trace[-10:], options=wd.cfg.options(), side=w)
            return False
        ctx.ev('failed_reads')
        return True
    wd.got[w].append(bytes(o.value))
    i = len(wd.got[w]) - 1
    if i >= len(wd.want[w]) or wd.want[w][i] != wd.got[w][i]:
        return fail(ctx, wd, 'after interrupted operations a read returns the wrong message', side=w, index=i, got=wd.got[w][i], expected=wd.want[w][i:i + 1], previous=wd.got[w][:i][-2:])
    ctx.ev('messages_delivered')
    return True


async def drain(ctx, wd, apps, rng):
    for w in 'cs':
        n = 0
        while len(wd.got[w]) < len(wd.want[w]):
            n += 1
            if n > 4000:
                return fail(ctx, wd, 'messages do not arrive', side=w)
            if not await one_read(ctx, wd, apps[w], w, rng, True):
                return False
    return True


def history(ctx, rng):
    cfg = sess.Cfg(rng)
    if rng.random() < 0.3:
        cfg.buf4 = True
    sess.random_times(cfg, rng)
    wd = World(ctx, rng, cfg)
    wd.first = False
    link = wd.link
    ends = {w: Faulty(link, w, rng) for w in 'cs'}
    wrap = rng.random() < 0.2
    chans = {w: MitmChannel(ends[w]) if wrap else ends[w] for w in 'cs'}
    c, s = cfg.client(chans['c']), cfg.server(chans['s'])
    rf, wf = rng.choice([0, 0, 0.2, 0.5]), rng.choice([0, 0, 0.2, 0.5])

    async def go():
        t = asyncio.ensure_future(s.handshake())
        await c.handshake()
        if cfg.buf4:
            ends['c'].wfail_after = wf             # only the client's: the server is still in its handshake
            for _ in range(300):
                if wd.first:
                    break
                if not await one_write(ctx, wd, c.app_channel, ends['c'], 'c', rng, lambda: link.calls['c']):
                    t.cancel()
                    return False
        await t
        for e in ends.values():
            e.rfail, e.wfail_after = rf, wf
        apps = {'c': c.app_channel, 's': s.app_channel}
        for _ in range(rng.randrange(3, 25)):
            w = rng.choice('cs')
            if rng.random() < 0.5:
                ok = await one_write(ctx, wd, apps[w], ends[w], w, rng, lambda: link.calls[w])
            else:
                ok = await one_read(ctx, wd, apps[w], w, rng, len(wd.got[w]) < len(wd.want[w]))
            if not ok:
                return False
        return await drain(ctx, wd, apps, rng)
    o = sess.run1(go)
    finish(ctx, wd, o, 'histories', cfg)
    if o.ok and o.value:
        wc, ws, bad = sess.transcript(cfg, [m[0] for m in link.sent['c']], [m[0] for m in link.sent['s']])
        ctx.check(not bad, 'the wire data after interrupted operations is not a valid session', key='wire', problems=bad, trace=wd.trace[-10:])


def finish(ctx, wd, o, counter, cfg):
    ctx.ev(counter)
    ctx.case((counter, cfg.key(), wd.trace))
    ctx.state([t[:2] + t[-1:] for t in wd.trace])
    if o.kind == 'stuck':
        fail(ctx, wd, 'the session hangs after interrupted operations', want={k: len(v) for k, v in wd.want.items()}, got={k: len(v) for k, v in wd.got.items()})
    elif o.kind == 'exc':
        ctx.fail_exc('the session fails with interrupted operations', o.value, key='session-' + type(o.value).__name__, trace=wd.trace[-10:], options=cfg.options())


def socket_history(ctx, rng):
    """The same over AsyncioChannel on real sockets with tiny buffers."""
    cfg = sess.Cfg(rng)
    if rng.random() < 0.3:
        cfg.buf4 = True
    wd = World(ctx, rng, cfg)
    wd.first = False
    a, b = socket.socketpair()
    calls = {'c': 0, 's': 0}

    async def connect(w, sock):
        r, wr = await open_saltchannel_connection(sock=sock)
        if rng.random() < 0.8:
            wr.transport.set_write_buffer_limits(high=rng.choice([0, 1, 100]))
        tr = wr.transport
        for name in ('write', 'writelines'):
            def taken(data, orig=getattr(tr, name)):
                calls[w] += 1
                return orig(data)
            setattr(tr, name, taken)
        return AsyncioChannel(r, wr)

    async def go():
        for x in (a, b):
            x.setblocking(False)
            if rng.random() < 0.5:
                x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 2048)
        c, s = cfg.client(await connect('c', a)), cfg.server(await connect('s', b))
        t = asyncio.ensure_future(s.handshake())
        await c.handshake()
        for _ in range(300):
            if wd.first or not cfg.buf4:
                break
            if not await one_write(ctx, wd, c.app_channel, None, 'c', rng, lambda: calls['c']):
                t.cancel()
                return False
        await t
        apps = {'c': c.app_channel, 's': s.app_channel}
        for _ in range(rng.randrange(3, 15)):
            w = rng.choice('cs')
            if rng.random() < 0.5:
                # the reader on the other side keeps the socket moving
                tw = asyncio.ensure_future(one_write(ctx, wd, apps[w], None, w, rng, lambda: calls[w]))
                while not tw.done():
                    o = other(w)
                    if not await one_read_any(ctx, wd, apps[o], o, rng):
                        tw.cancel()
                        return False
                if not tw.result():
                    return False
            elif len(wd.got[w]) < len(wd.want[w]):
                if not await one_read(ctx, wd, apps[w], w, rng, True):
                    return False
        if not await drain(ctx, wd, apps, rng):
            return False
        for w in 'cs':
            if wd.got[w] != wd.want[w]:
                i = next((i for i, (x, y) in enumerate(zip(wd.got[w], wd.want[w])) if x != y), min(len(wd.got[w]), len(wd.want[w])))
                return fail(ctx, wd, 'after interrupted operations over sockets the messages read differ from those accepted', side=w, index=i,
                            got=wd.got[w][i:i + 1], expected=wd.want[w][i:i + 1])
        return True
    try:
        o = net.run_async({'x': go}, real_io=True)['x']
    finally:
        a.close()
        b.close()
    finish(ctx, wd, o, 'socket_histories', cfg)


async def one_read_any(ctx, wd, app, w, rng):
    """A short read attempt while a write may be under way; deliveries are judged when the write is known to be accepted."""
    o = await wd.interrupt(app.read(), rng.randrange(1, 4))
    if o.kind == 'stuck':
        ctx.ev('cancelled_reads')
        return True
    if o.kind == 'exc':
        ctx.fail_exc('read() after an interrupted operation failed', o.value, key='read-' + type(o.value).__name__, trace=wd.trace[-10:], side=w)
        return False
    wd.got[w].append(bytes(o.value))
    return True


def positions(ctx, rng, sc_seed, plain=False):
    """AsyncioChannel: a message stream arrives up to byte n, the waiting read is cancelled there, then the rest arrives. Every n, several cancellations."""
    r0 = random.Random(sc_seed)
    key = r0.randbytes(32)
    batches = [[gen.fill(r0, r0.choice([0, 1, 3, 20])) for _ in range(r0.choice([1, 1, 2, 3]))] for _ in range(3)]
    peer = ref.Secure(key, 'server')
    stream = b''
    if plain:
        # no session, the messages themselves, some of which are shorter than any packet
        batches = [[gen.fill(r0, r0.choice([0, 1, 3, 4, 15, 16, 40]))] for _ in range(6)]
    for i, b in enumerate(batches):
        p = b[0] if plain else peer.seal(ref.app(0, b[0]) if len(b) == 1 else ref.multi(0, b))
        stream += struct.pack('<i', len(p)) + p
    want = [m for b in batches for m in b]
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    from saltchannel.util.time import NullTimeChecker, NullTimeKeeper
    for n in ctx.share(list(range(len(stream) + 1))):
        extra = sorted(rng.sample(range(len(stream) + 1), rng.randrange(0, 4)) + [n])
        info = {}

        async def go():
            reader = SaltChannelStreamReader(loop=asyncio.get_running_loop())
            app = AsyncioChannel(reader, None)
            if not plain:
                app = AppChannelV2(EncryptedChannelV2(app, key, Role.CLIENT), NullTimeKeeper(), NullTimeChecker())
            got, pos = [], 0
            for cut in extra + [len(stream)]:
                t = asyncio.ensure_future(app.read())
                if rng.random() < 0.5:
                    await asyncio.sleep(0)
                while pos < cut:
                    k = min(cut - pos, rng.choice([1, 2, 7, 100]))
                    reader.feed_data(stream[pos:pos + k])
                    pos += k
                    if rng.random() < 0.5:
                        await asyncio.sleep(0)
                for _ in range(rng.randrange(0, 6)):
                    await asyncio.sleep(0)
                if cut == len(stream) and pos == len(stream):
                    got.append(bytes(await t))
                    break
                t.cancel()
                try:
                    got.append(bytes(await t))
                except asyncio.CancelledError:
                    ctx.ev('cancelled_reads')
                    ctx.ev('half_received')
            while len(got) < len(want):
                got.append(bytes(await app.read()))
            return got
        o = sess.run1(go)
        ctx.ev('stream_positions')
        ctx.case(('pos', plain, sc_seed, n, tuple(extra)))
        info = dict(plain=plain, cancelled_at=extra, stream=len(stream))
        if o.kind == 'exc':
            ctx.fail_exc('reading after a cancelled read over AsyncioChannel fails', o.value, key='pos-' + type(o.value).__name__, **info)
        elif o.kind == 'stuck':
            ctx.violation('reading after a cancelled read over AsyncioChannel hangs: something was lost', key='pos-stuck', **info)
        else:
            ctx.check(o.value == want, 'a cancelled read over AsyncioChannel loses, duplicates or reorders messages', key='pos-order', got=o.value, expected=want, **info)


class SyncFaulty(net.ScriptEnd):
    fail_next = None

    def read_sync(self):
        if self.fail_next is not None:
            e, self.fail_next = self.fail_next, None
            raise e
        return super().read_sync()

    def write_sync(self, msg, *args, is_last=False):
        super().write_sync(msg, *args, is_last=is_last)
        if self.fail_next is not None:
            e, self.fail_next = self.fail_next, None
            raise e


def sync_history(ctx, rng):
    """Synchronous API against a reference server: temporary failures and refused arguments."""
    cfg = sess.Cfg(rng)
    peer = ref.RefServer(cfg.ssig, cfg.senc)
    sent, box = [], {'n': 0}

    def answer(raw):
        box['n'] += 1
        if box['n'] == 1:
            peer.on_m1(raw)
            return [peer.hello(0), peer.m3(0)]
        clear = peer.sec.open(raw)
        if box['n'] == 2:
            ref.d_m4(clear)
        else:
            sent.extend(bytes(m) for m in ref.d_appdata(clear)[1])
        return []
    ch = SyncFaulty(answer)
    trace, want_sent, to_read = [], [], []
    try:
        with net.Driver():
            s = cfg.client(ch)
            s.handshake_sync()
            ctx.ev('histories')
            for _ in range(rng.randrange(3, 20)):
                r = rng.random()
                if r < 0.2:
                    bad = gen.batch(rng, 4, 50, 200)
                    bad[rng.randrange(len(bad))] = rng.choice(JUNK)
                    n0 = len(ch.sent)
                    trace.append('refused')
                    try:
                        s.app_channel.write_sync(*bad)
                        ctx.ev('junk_accepted')
                        return
                    except Exception:
                        ctx.ev('refused_writes')
                        if cfg.buf4 and box['n'] == 1:
                            ctx.ev('refused_first_writes')
                    if len(ch.sent) != n0:
                        return ctx.violation('a write that was refused because of its arguments sent something', key='sync-refused', trace=trace)
                elif r < 0.5:
                    b = gen.batch(rng, 5, 80, 300)
                    want_sent += [bytes(m) for m in b]
                    if rng.random() < 0.3:
                        ch.fail_next = rng.choice([OSError(4, 'temporary'), ComException('temporary')])
                        trace.append('write-fails-after')
                        try:
                            s.app_channel.write_sync(*b)
                            return ctx.violation('a failed write reports success', key='sync-wfail', trace=trace)
                        except (OSError, ComException):
                            ctx.ev('failed_writes')
                    else:
                        trace.append('write')
                        s.app_channel.write_sync(*b)
                elif r < 0.7 and not (cfg.buf4 and box['n'] == 1):
                    b = gen.batch(rng, 5, 80, 300)
                    ch.inbox.append(peer.sec.seal(ref.app(0, b[0]) if len(b) == 1 else ref.multi(0, b)))
                    to_read += [bytes(m) for m in b]
                elif to_read:
                    queued = False
                    if rng.random() < 0.4:
                        ch.fail_next = rng.choice([OSError(4, 'temporary'), ComException('temporary')])
                        trace.append('read-fails')
                        try:
                            m = s.app_channel.read_sync()
                            ch.fail_next = None          # came from the queue of an earlier packet
                            queued = True
                        except (OSError, ComException):
                            ctx.ev('failed_reads')
                    if not queued:
                        trace.append('read')
                        m = s.app_channel.read_sync()
                    x = to_read.pop(0)
                    ctx.ev('messages_delivered')
                    if bytes(m) != x:
                        return ctx.violation('after interrupted operations a read returns the wrong message', key='sync-read', got=m, expected=x, trace=trace[-8:])
            for x in to_read:
                m = s.app_channel.read_sync()
                if bytes(m) != x:
                    return ctx.violation('after interrupted operations a read returns the wrong message', key='sync-read', got=m, expected=x, trace=trace[-8:])
    except Exception as e:
        return ctx.fail_exc('the synchronous session fails with interrupted operations', e, key='sync-' + type(e).__name__, trace=trace[-8:], options=cfg.options())
    finally:
        ctx.case(('sync', cfg.key(), trace))
    ctx.check(sent == want_sent, 'the peer did not get exactly the accepted messages', key='sync-sent', got=sent[-2:], expected=want_sent[-2:], trace=trace[-8:])


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        for _ in range(ctx.scale(1500, 20000)):
            history(ctx, rng)
        for _ in range(ctx.scale(800, 10000)):
            sync_history(ctx, rng)
        for i in range(ctx.scale(40, 400)):
            positions(ctx, rng, '%d-%d' % (ctx.seed, i))
            positions(ctx, rng, '%d-p%d' % (ctx.seed, i), plain=True)
        for _ in range(ctx.scale(60, 1500)):
            socket_history(ctx, rng)
