"""C20 MitmChannel observes without disturbing."""
import logging
import random
import re

from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import BadPeer

from vlib import gen, net, ref, sess

PROP = 'C20'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'histories': 3000, 'writes': 10000, 'reads': 10000, 'records': 30000, 'failures': 2000, 'flushes': 1000, 'sessions': 100, 'buffers_reused': 1000, 'long_buffers': 20, 'closed_unflushed': 20}
RULE = ('one evaluation = one history of reads, batched writes, failures, log_buffering switches and flushes on a MitmChannel over an instrumented channel (or a complete '
        'session over MitmChannels), compared call by call with the same history on the bare channel and with the expected log; distinct = distinct histories')

LINE = re.compile(r"(READ|WRITE_WITH_PREVIOUS|WRITE)\b.*?len\(msg\):(\d+), msg: b'([0-9a-f]*)'", re.S)


class Log(logging.Logger):
    """A real logger that keeps its lines in memory."""
    def __init__(self):
        super().__init__('mitm', logging.DEBUG)
        self.lines = []
        h = logging.Handler()
        h.emit = lambda rec: self.lines.append(rec.getMessage())
        self.addHandler(h)
        self.propagate = False


class Odd(Exception):
    pass


class Inner(net.ScriptEnd):
    """The wrapped channel: fully scripted, records how it was called."""
    def __init__(self, inbox, rerr, werr):
        super().__init__(inbox=inbox)
        self.rerr, self.werr = rerr, werr
        self.seen = []
        self.nr = self.nw = 0
        self.closed = 0

    def read_sync(self):
        self.seen.append('r')
        self.nr += 1
        if self.nr - 1 in self.rerr:
            raise self.rerr[self.nr - 1]
        return super().read_sync()

    def write_sync(self, msg, *args, is_last=False):
        self.seen.append(('w', [bytes(m) if isinstance(m, (bytes, bytearray, memoryview)) else m for m in (msg,) + args], is_last))
        self.nw += 1
        if self.nw - 1 in self.werr:
            raise self.werr[self.nw - 1]
        super().write_sync(msg, *args, is_last=is_last)

    async def read(self):
        return self.read_sync()

    async def write(self, msg, *args, is_last=False):
        self.write_sync(msg, *args, is_last=is_last)

    def close(self):
        self.closed += 1


def exc(rng):
    return rng.choice([net.fault(rng), BadPeer('x'), Odd('x')]) if rng.random() < 0.5 else net.fault(rng)


def scribble(rng, b):
    if b and rng.random() < 0.5:
        b[rng.randrange(len(b))] ^= 0xff
    elif rng.random() < 0.5:
        b.extend(b'more')
    else:
        b.clear()


def history(ctx, rng, d, nops, long=False):
    inbox = [gen.typed(rng, gen.message(rng, rng.choice([10, 300, 3000]))) for _ in range(nops)]
    if rng.random() < 0.01:
        inbox[0] = rng.randbytes(rng.choice([32769, 65537, 131073, (1 << 20) + 1]))
    rerr = {i: exc(rng) for i in range(nops) if rng.random() < 0.08}
    werr = {i: exc(rng) for i in range(nops) if rng.random() < 0.08}
    inner, bare = Inner(inbox, rerr, werr), Inner(inbox, rerr, werr)
    logged = rng.random() < 0.8
    log = Log() if logged else None
    m = MitmChannel(inner, log=log) if logged else MitmChannel(inner)
    want, pending, cr, cw, most = [], [], 0, 0, 0
    buffering = long and logged
    if buffering:
        m.log_buffering = True
    trace = []

    def note(rec):
        (pending if buffering else want).append(rec)
    for i in range(nops):
        r = rng.random()
        if long and r > 0.75 and rng.random() < 0.98:
            r *= 0.75
        api = rng.choice(['sync', 'async'])
        if r < 0.35:
            a, b = d.call(api, m, 'read'), d.call(api, bare, 'read')
            ctx.ev('reads')
            trace.append('r')
            if b.ok:
                cr += len(b.value)
                note(('READ', bytes(b.value)))
                same = a.ok and type(a.value) is type(b.value) and a.value == b.value
            else:
                ctx.ev('failures')
                same = not a.ok and a.value is b.value or isinstance(b.value, net.Cut) and type(a.value) is type(b.value)
            if a.ok and isinstance(a.value, bytearray) and rng.random() < 0.5:
                scribble(rng, a.value)          # the reader may do what it wants with what it got
                ctx.ev('buffers_reused')
            if not same:
                return ctx.violation('read() through a MitmChannel is not read() of the wrapped channel', key='read', api=api, bare=repr(b), mitm=repr(a))
        elif r < 0.75:
            msgs = [gen.typed(rng, x) for x in gen.batch(rng, 20, 600, 3000)]
            if rng.random() < 0.002:
                msgs[rng.randrange(len(msgs))] = rng.randbytes(rng.choice([32769, 65536, 65537, 131073, (1 << 20) + 1]))
                ctx.ev('huge_messages')
            kw = rng.choice([{}, {}, {'is_last': True}, {'is_last': False}])
            a = call_write(d, api, m, msgs, kw)
            b = call_write(d, api, bare, msgs, kw)
            ctx.ev('writes')
            trace.append(('w', len(msgs), kw.get('is_last')))
            if b.ok:
                cw += sum(len(x) for x in msgs)
                for j, x in enumerate(msgs):
                    note(('WRITE_WITH_PREVIOUS' if j else 'WRITE', bytes(x)))
                same = a.ok
            else:
                ctx.ev('failures')
                same = not a.ok and a.value is b.value
            for x in msgs:
                if isinstance(x, bytearray) and rng.random() < 0.5:
                    scribble(rng, x)
                    ctx.ev('buffers_reused')
            if not same:
                return ctx.violation('write() through a MitmChannel does not end like write() of the wrapped channel', key='write', api=api, bare=repr(b), mitm=repr(a))
        elif r < 0.87 and logged:
            buffering = rng.random() < 0.7
            m.log_buffering = buffering
            trace.append(('b', buffering))
            if not buffering:                  # with records pending, do not mix the two ways
                m.flush_log_buffer()
                most = max(most, len(pending))
                want += pending
                pending = []
        elif logged:
            most = max(most, len(pending))
            m.flush_log_buffer()
            want += pending
            pending = []
            ctx.ev('flushes')
            trace.append('f')
        if inner.seen != bare.seen:
            return ctx.violation('the wrapped channel is not called as the MitmChannel was', key='calls', expected=bare.seen[-3:], got=inner.seen[-3:])
        if (m.counter_read, m.counter_write) != (cr, cw):
            return ctx.violation('counter_read/counter_write are not the lengths of the messages read/written', key='counters', expected=(cr, cw),
                                 got=(m.counter_read, m.counter_write), trace=trace[-5:])
        if logged and not log_ok(ctx, log, want, trace):
            return
    unflushed = logged and not long and rng.random() < 0.2
    if unflushed:
        ctx.ev('closed_unflushed', bool(pending))
    elif logged:
        most = max(most, len(pending))
        m.flush_log_buffer()
        m.flush_log_buffer()
        ctx.ev('long_buffers', most > 1000)
        want += pending
        log_ok(ctx, log, want, trace)
    m.close()
    ctx.check(inner.closed == 1, 'close() does not close the wrapped channel once', key='close', n=inner.closed)
    ctx.ev('histories')
    ctx.ev('records', len(want))
    ctx.case((trace, [x[1] for x in want[:3]]))
    ctx.state(trace)


def call_write(d, api, obj, msgs, kw):
    try:
        if api == 'sync':
            return net.Outcome('ok', obj.write_sync(*msgs, **kw))
        return net.Outcome('ok', d.loop.run_until_complete(obj.write(*msgs, **kw)))
    except Exception as e:
        return net.Outcome('exc', e)


def parse(line):
    f = LINE.search(line)
    if not f:
        return None
    return (f.group(1), bytes.fromhex(f.group(3)), int(f.group(2)))


def log_ok(ctx, log, want, trace):
    ctx.ev('oracle_evaluations')
    if len(log.lines) != len(want):
        ctx.violation('number of log records', key='log-count', expected=len(want), got=len(log.lines), trace=trace[-8:])
        return False
    start = getattr(log, 'seen', 0)
    for line, (typ, data) in zip(log.lines[start:], want[start:]):
        got = parse(line)
        if got != (typ, data, len(data)):
            ctx.violation('a log record is wrong', key='log-record', expected=(typ, len(data), data), line=line, trace=trace[-8:])
            return False
    log.seen = len(want)
    return True


def session(ctx, rng):
    """A complete session whose ends are both wrapped is the same as the bare session."""
    seed = rng.random()
    out = []
    for wrapped in (False, True):
        r = random.Random(seed)
        cfg = sess.Cfg(r)
        sess.random_times(cfg, r)
        link = net.Link(random.Random(seed), 2)
        logs, mitm, got = {}, {}, {'c': [], 's': []}
        plan = [(r.choice('cs'), gen.batch(r, 6, 200, 800), r.random() < 0.2) for _ in range(r.randrange(1, 8))]

        async def party(w):
            ch = net.AsyncEnd(link, w)
            if wrapped:
                logs[w] = Log()
                ch = mitm[w] = MitmChannel(ch, log=logs[w])
            s = cfg.client(ch) if w == 'c' else cfg.server(ch)
            await s.handshake()
            if w == 'c' and cfg.buf4:
                await s.app_channel.write(b'first')
            if w == 's' and cfg.buf4:
                got[w].append(bytes(await s.app_channel.read()))
            for d, b, last in plan:
                if d == w:
                    await s.app_channel.write(*b, is_last=last)
                else:
                    for _ in b:
                        got[w].append(bytes(await s.app_channel.read()))
        res = net.run_async({'c': lambda: party('c'), 's': lambda: party('s')})
        out.append(([repr(res[w]) for w in 'cs'], [[x for x in link.sent[w]] for w in 'cs'], got))
        if wrapped:
            for w, o in (('c', 's'), ('s', 'c')):
                sent, recv = [x[0] for x in link.sent[w]], [x[0] for x in link.sent[o]]
                recs = [parse(l) for l in logs[w].lines]
                if None in recs:
                    return ctx.violation('a log record is wrong', key='log-record', lines=logs[w].lines[:2])
                groups = [n for _, _, n in link.sent[w]]
                types = ['WRITE' if i == 0 or groups[i] != groups[i - 1] else 'WRITE_WITH_PREVIOUS' for i in range(len(groups))]
                ctx.check([x[1] for x in recs if x[0] != 'READ'] == sent and [x[0] for x in recs if x[0] != 'READ'] == types,
                          'the log of a session does not list what was written', key='session-log-w')
                rd = [x[1] for x in recs if x[0] == 'READ']
                ctx.check(rd == recv[:len(rd)], 'the log of a session does not list what was read', key='session-log-r')
                ctx.check(mitm[w].counter_write == sum(map(len, sent)) and mitm[w].counter_read == sum(map(len, rd)), 'counters after a session', key='session-counters')
    ctx.check(out[0] == out[1], 'a session over MitmChannels differs from the bare session', key='session', outcomes=[o[0] for o in out])
    ctx.ev('sessions')
    ctx.case(('session', seed))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500):
        with net.Driver() as d:
            for _ in range(ctx.scale(2500, 40000)):
                history(ctx, rng, d, rng.randrange(1, 25))
            for _ in range(ctx.scale(60, 1000)):
                history(ctx, rng, d, rng.choice([200, 500, 800]), True)
        for _ in range(ctx.scale(120, 3000)):
            session(ctx, rng)
