"""C18 Concurrent writers and full-duplex traffic lose and corrupt nothing."""
import asyncio
import socket

from saltchannel.channel import AsyncioChannel
from saltchannel.dev.client_server_a import open_saltchannel_connection
from saltchannel.dev.mitm_channel import MitmChannel

from vlib import gen, net, sess

PROP = 'C18'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'runs_link': 200, 'runs_fifo': 100, 'runs_socket': 40, 'messages_delivered': 50000, 'writes_checked': 20000, 'overlapping_writes': 2000,
           'racing_m4': 50, 'runs_with_huge_messages': 20, 'pairs_ordered': 20000}
RULE = ('one evaluation = one duplex session with several writer tasks and one reader task per side over one transport; distinct = distinct (options, workload, '
        'transport); states = distinct interleavings of write starts, write ends and deliveries seen at the API')


class Fifo(net.AsyncEnd):
    """A transport that takes data only after a wait, first come first served (like a stream with flow control)."""
    def __init__(self, link, who):
        super().__init__(link, who)
        self.tail = None

    async def write(self, msg, *args, is_last=False):
        before, me = self.tail, asyncio.get_running_loop().create_future()
        self.tail = me
        try:
            if before is not None and not before.done():
                await before
            await self._jitter()
            self.link.push(self.who, (msg,) + args, is_last)
            await self._jitter()
        finally:
            if not me.done():
                me.set_result(None)


class Log:
    """Offline record: per direction the write calls with their start and end times, and the deliveries."""
    def __init__(self):
        self.clock = 0
        self.writes = {'c': {}, 's': {}}     # tag -> (messages, task, start, end)
        self.got = {'c': [], 's': []}
        self.events = []

    def tick(self, *e):
        self.clock += 1
        self.events.append(e)
        return self.clock


def make_batch(rng, tag, big):
    r = rng.random()
    if big > 1 and rng.random() < 0.1:
        return [tag] + [gen.fill(rng, rng.choice([0, 5, 100000, 262144, 270000, 600000])) for _ in range(rng.randrange(1, 4))]
    first = tag + gen.fill(rng, rng.choice([0, 1, 5, 60, 300]))
    if r < 0.4:
        return [first]
    if r < 0.9:
        return [first] + [gen.message(rng, 100) for _ in range(rng.randrange(1, 7))]
    if big and rng.random() < 0.5:        # one packet per message
        b = [gen.fill(rng, rng.choice([0, 1, 3, 40])) for _ in range(rng.choice([rng.randrange(5, 40), rng.randrange(40, 130), rng.randrange(130, 600)]))]
        b.insert(rng.randrange(len(b) + 1), gen.fill(rng, 65536))
        return [first] + b
    if big:
        return [first] + [gen.fill(rng, rng.choice([10, 65535, 65536, 70000])) for _ in range(rng.randrange(1, 3))]
    return [first] + [b''] * rng.randrange(1, 40)


async def writer(app, log, who, task, plan):
    for tag, b, kw, pause in plan:
        log.writes[who][tag] = [b, task, log.tick(who, 'ws', task), None]
        await app.write(*b, **kw)
        log.writes[who][tag][3] = log.tick(who, 'we', task)
        for _ in range(pause):
            await asyncio.sleep(0)


async def reader(rng, app, log, who, total, pace):
    while len(log.got[who]) < total:
        log.got[who].append(bytes(await app.read()))
        log.tick(who, 'r', 0)
        for _ in range(rng.randrange(pace + 1)):
            await asyncio.sleep(0)


def judge(ctx, log, kind, wire):
    for w, r in (('c', 's'), ('s', 'c')):
        got, pos, order = log.got[r], 0, []
        while pos < len(got):
            tag = bytes(got[pos][:8])
            rec = log.writes[w].get(tag)
            if rec is None:
                ctx.violation('a delivered message does not begin any write of the peer', key='unknown-' + kind, got=got[pos], after=order[-3:], transport=kind)
                return
            msgs = rec[0]
            if got[pos:pos + len(msgs)] != msgs:
                ctx.violation('the messages of one write call do not arrive together, in order and unchanged', key='batch-' + kind, transport=kind,
                              expected=msgs, got=got[pos:pos + len(msgs)])
                return
            ctx.ev('writes_checked')
            order.append(tag)
            pos += len(msgs)
        ctx.ev('messages_delivered', len(got))
        if len(set(order)) != len(order):
            ctx.violation('a write was delivered twice', key='twice-' + kind, transport=kind, order=order)
            return
        missing = set(log.writes[w]) - set(order)
        if missing:
            ctx.violation('a write was not delivered', key='lost-' + kind, transport=kind, missing=sorted(missing), delivered=len(order))
            return
        # real-time order: a write that ended before another one began is delivered before it (includes the order within one task)
        latest = 0
        for tag in order:
            b, task, start, end = log.writes[w][tag]
            ctx.ev('pairs_ordered')
            if end is not None and end < latest:
                ctx.violation('writes were reordered: a write that had ended before another one began is delivered after it', key='order-' + kind, transport=kind, order=order)
                return
            latest = max(latest, start)
        spans = sorted((v[2], v[3]) for v in log.writes[w].values())
        ctx.ev('overlapping_writes', sum(1 for x, y in zip(spans, spans[1:]) if x[1] and y[0] < x[1]))
    if wire:
        ctx.violation('what concurrent writers put on the wire is not a valid session: %s' % wire, key='wire-' + kind, transport=kind)


def one(ctx, rng, kind):
    cfg = sess.Cfg(rng)
    if rng.random() < 0.5:
        cfg.buf4 = rng.random() < 0.7
    sess.random_times(cfg, rng)
    nw = {'c': rng.randrange(1, 6), 's': rng.randrange(0, 5)}
    per = rng.randrange(1, 12)
    big = rng.random() < 0.08
    if kind == 'socket' and rng.random() < 0.25:
        big = 2
        ctx.ev('runs_with_huge_messages')
    jit = rng.choice([0, 1, 2, 4, 9])
    paces = [rng.choice([0, 1, 3, 8]) for _ in range(2)]
    log = Log()
    link = net.Link(rng, jit)
    wrap = rng.random() < 0.2
    reader_first = rng.random() < 0.5
    plan, total = {}, {}
    for w, to in (('c', 's'), ('s', 'c')):
        plan[w] = []
        for t in range(nw[w]):
            p = []
            for i in range(per):
                tag = b'%s%02d/%03d|' % (w.encode(), t, i)
                p.append((tag, make_batch(rng, tag, big), {'is_last': True} if rng.random() < 0.05 else {}, rng.randrange(paces[1] + 1)))
            plan[w].append(p)
        total[to] = sum(len(x[1]) for p in plan[w] for x in p)

    async def connect(w, sock):
        if kind == 'socket':
            r, wr = await open_saltchannel_connection(sock=sock)
            if rng.random() < 0.7:
                wr.transport.set_write_buffer_limits(high=rng.choice([0, 1, 100, 1000]))
            ch = AsyncioChannel(r, wr)
        else:
            ch = (net.AsyncEnd if kind == 'link' else Fifo)(link, w)
        return MitmChannel(ch) if wrap else ch

    async def party(w, sock):
        ch = await connect(w, sock)
        s = cfg.client(ch) if w == 'c' else cfg.server(ch)
        await s.handshake()
        if w == 'c' and cfg.buf4 and nw['c'] > 1:
            ctx.ev('racing_m4')
        tasks = [asyncio.ensure_future(writer(s.app_channel, log, w, t, p)) for t, p in enumerate(plan[w])]
        rd = asyncio.ensure_future(reader(rng, s.app_channel, log, w, total[w], paces[0]))
        tasks.insert(0 if reader_first else len(tasks), rd)
        try:
            await asyncio.gather(*tasks)
        finally:
            for t in tasks:
                t.cancel()
    a = b = None
    if kind == 'socket':
        a, b = socket.socketpair()
        for x in (a, b):
            x.setblocking(False)
            if rng.random() < 0.5:
                x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
    try:
        res = net.run_async({'c': lambda: party('c', a), 's': lambda: party('s', b)}, real_io=kind == 'socket')
    finally:
        for x in (a, b):
            if x is not None:
                x.close()
    ctx.ev('runs_' + kind)
    ctx.case((kind, cfg.key(), nw['c'], nw['s'], per, jit, tuple(paces), plan['c'][0][0][1][0].hex()))
    ctx.state((kind, tuple(log.events[:600])))
    for w in 'cs':
        o = res[w]
        if o.kind == 'exc':
            ctx.fail_exc('%s fails with concurrent writers' % w, o.value, key='exc-%s-%s' % (kind, type(o.value).__name__), transport=kind, options=cfg.options(), side=w,
                         got=len(log.got[w]), expected=total[w])
            return
    for w in 'cs':
        if res[w].kind == 'stuck':
            ctx.violation('messages never arrive', key='stuck-' + kind, transport=kind, options=cfg.options(), side=w, got=len(log.got[w]), expected=total[w])
            return
    wire = None
    if kind != 'socket':
        wc, ws, bad = sess.transcript(cfg, [m[0] for m in link.sent['c']], [m[0] for m in link.sent['s']])
        wire = '; '.join(bad) if bad else None
    judge(ctx, log, kind, wire)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        for i in range(ctx.scale(900, 15000)):
            one(ctx, rng, 'link' if i % 3 else 'fifo')
            if i % 8 == 0:
                one(ctx, rng, 'socket')
