"""C12 Time fields follow the time keeper and every received time is checked."""
import threading

from saltchannel.exceptions import BadPeer, TimeException
from saltchannel.util.time import NullTimeChecker, NullTimeKeeper, TimeChecker, TimeKeeper

from vlib import gen, net, ref, sess

PROP = 'C12'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'sent_times_checked': 20000, 'received_times_checked': 20000, 'refusals': 1000, 'buffered_m2': 200, 'buffered_m4': 200,
           'default_checker_cases': 200, 'default_keeper_packets': 500, 'no_such_server': 50, 'independence': 50}
RULE = ('one evaluation = one session of a real endpoint with an independent peer; the merged event log of time keeper, time checker, transport and application was '
        'checked against the trace specification; distinct = distinct (role, API, options, script, times)')


class Log(list):
    pass


class KeeperX(TimeKeeper):
    def __init__(self, log, rng, style):
        self.log, self.rng, self.style, self.n = log, rng, style, 0

    def _next(self, kind):
        self.n += 1
        if self.style == 'unique':
            v = self.n * 1000003 % (2 ** 31)
        elif self.style == 'step':
            v = 1 if kind == 'first' else self.n
        elif self.style == 'down':
            v = 2 ** 31 - self.n
        else:
            v = gen.times(self.rng)
        self.log.append(('keep', kind, v))
        return v

    def get_first_time(self):
        return self._next('first')

    def get_time(self):
        return self._next('time')


class CheckerX(TimeChecker):
    def __init__(self, log, refuse=None):
        self.log, self.refuse, self.n = log, refuse or {}, 0

    def _on(self, kind, t):
        i, self.n = self.n, self.n + 1
        self.log.append(('check', kind, t))
        if i in self.refuse:
            raise self.refuse[i]

    def report_first_time(self, time):
        self._on('first', time)

    def check_time(self, time):
        self._on('time', time)


class LogEnd(net.ScriptEnd):
    log = None

    def read_sync(self):
        m = super().read_sync()
        self.log.append(('r', m))
        return m

    def write_sync(self, msg, *args, is_last=False):
        self.log.append(('w', [bytes(m) for m in (msg,) + args]))
        super().write_sync(msg, *args, is_last=is_last)


class Custom(Exception):
    pass


def errors(rng):
    return rng.choice([TimeException('late'), BadPeer('bad time'), Custom('refused'), ValueError('refused')])


class World:
    """One real endpoint against a reference peer, everything logged in one list."""
    def __init__(self, ctx, rng, d, role, keeper='unique', refuse=None, checker=True):
        self.ctx, self.rng, self.d, self.role = ctx, rng, d, role
        self.api = rng.choice(['sync', 'async'])
        self.cfg = cfg = sess.Cfg(rng)
        if role == 'server':
            cfg.buf4 = False
        else:
            cfg.buf2 = False
        self.log = Log()
        self.times = []              # (kind, time) of every packet given to the endpoint, in order
        ch = self.ch = LogEnd(self.peer)
        ch.log = self.log
        self.n = 0
        k = KeeperX(self.log, rng, keeper) if keeper else None
        c = CheckerX(self.log, refuse) if checker else None
        if role == 'client':
            cfg.ck, cfg.cc = k, c
            self.s = cfg.client(ch)
            self.ref = ref.RefServer(cfg.ssig, cfg.senc)
        else:
            cfg.sk, cfg.sc = k, c
            self.s = cfg.server(ch)
            self.ref = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
            t = self.rtime(first=True)
            ch.inbox.append(self.ref.hello(t))
            self.times.append(('first', t))

    fixed_first = None

    def rtime(self, first=False):
        if first and self.fixed_first is not None:
            return self.fixed_first
        return gen.times(self.rng) if self.rng.random() < 0.8 else self.rng.randrange(2 ** 32)

    def peer(self, raw):
        self.n += 1
        out = []
        if self.role == 'client' and self.n == 1:
            self.ref.on_m1(raw)
            t1, t2 = self.rtime(True), self.rtime()
            out = [self.ref.hello(t1), self.ref.m3(t2)]
            self.times += [('first', t1), ('time', t2)]
        elif self.role == 'server' and self.n == 2:
            self.ref.on_m3(raw)
            t = self.rtime()
            out = [self.ref.m4(t)]
            self.times.append(('time', t))
        elif self.role == 'server' and self.n == 1:
            self.ref.on_m2(raw)
        return out

    def send(self, msgs):
        """The peer sends one application packet."""
        t = self.rtime()
        clear = ref.app(t, msgs[0]) if len(msgs) == 1 and (len(msgs[0]) > 65535 or self.rng.random() < 0.8) else ref.multi(t, msgs)
        self.ch.inbox.append(self.ref.sec.seal(clear, self.rng.random() < 0.2))
        self.times.append(('time', t))
        return t

    def info(self, **kw):
        return dict(role=self.role, api=self.api, options=self.cfg.options(), log=[e if e[0] not in 'rw' else e[0] for e in self.log][:60], **kw)

    # ---- oracles over the log

    def check_sent(self, nosuch=False):
        """Time of every packet = value most recently returned by the keeper before the write, of the right kind."""
        ctx, cfg = self.ctx, self.cfg
        sec = ref.Secure(cfg.session_key, 'client')
        sec.rn = 1 if self.role == 'client' else 2
        i, last = 0, None
        for e in self.log:
            if e[0] == 'keep':
                last = e[1:]
            elif e[0] == 'w':
                for raw in e[1]:
                    try:
                        if i == 0:
                            t = (ref.d_m1 if self.role == 'client' else ref.d_m2)(raw)['time']
                            kind = ('first',)
                        else:
                            clear = sec.open(raw)
                            if i == 1:
                                t = (ref.d_m4 if self.role == 'client' else ref.d_m3)(clear)['time']
                                kind = ('first',) if self.role == 'server' and cfg.buf2 else ('time',)
                            else:
                                t, _ = ref.d_appdata(clear)
                                kind = ('time',)
                    except Exception as x:
                        ctx.violation('packet %d of the %s cannot be decoded: %r' % (i, self.role, x), key='undecodable', **self.info())
                        return
                    i += 1
                    if (cfg.ck if self.role == 'client' else cfg.sk) is None:
                        ctx.ev('default_keeper_packets')
                        ctx.check(t == 0, 'default time keeper sent %d' % t, key='default-keeper', **self.info(packet=i))
                        continue
                    ctx.ev('sent_times_checked')
                    if last is None or last[1] != t or last[0] not in kind:
                        ctx.violation('packet %d of the %s carries time %d, the keeper last returned %s' % (i, self.role, t, last),
                                      key='sent-%s-%d' % (self.role, min(i, 3)), **self.info())
                        return

    def check_received(self, consumed):
        """consumed: number of packets the endpoint has taken; each was checked once, in order, before anything else happened."""
        ctx = self.ctx
        want = self.times[:consumed]
        got = [e[1:] for e in self.log if e[0] == 'check']
        ctx.ev('received_times_checked', len(want))
        if got != want:
            ctx.violation('time checker saw %s instead of %s' % (got[-3:], want[-3:]), key='received-%s' % self.role, **self.info(got=got, want=want))
            return
        pend = False
        for e in self.log:
            if e[0] == 'r':
                if pend:
                    ctx.violation('a packet was read before the time of the previous one was checked', key='order', **self.info())
                pend = True
            elif e[0] == 'check':
                pend = False
            elif e[0] in ('deliver', 'w') and pend:
                ctx.violation('%s before the time of the packet was checked' % e[0], key='order', **self.info())
                pend = False


def script(ctx, rng, d, role):
    style = rng.choice(['unique', 'unique', 'random', 'step', 'down', None])
    ref_at = {}
    nops = rng.randrange(1, 10)
    refuse = rng.random() < 0.4
    if refuse:
        for _ in range(rng.randrange(1, 3)):
            ref_at[rng.randrange(0, 8)] = errors(rng)
    w = World(ctx, rng, d, role, style, ref_at)
    cfg = w.cfg
    if cfg.buf2:
        ctx.ev('buffered_m2')
    if cfg.buf4:
        ctx.ev('buffered_m4')
    o = d.call(w.api, w.s, 'handshake')
    hs = 2
    ops = []
    early = [k for k in sorted(ref_at) if k < hs]
    if early:
        ctx.ev('refusals')
        e = ref_at[early[0]]
        if o.kind != 'exc' or o.value is not e:
            ctx.violation('refused time %d of the handshake did not stop it: %s' % (early[0], o.brief()), key='refuse-hs-%s-%d' % (role, early[0]),
                          **w.info(outcome=repr(o)))
            return
        w.check_received(early[0] + 1)
        if role == 'client' and len(w.ch.sent) != 1 or role == 'server' and len(w.ch.sent) != (0 if early[0] == 0 else 2):
            ctx.violation('messages were sent after the time was refused', key='refuse-sent', **w.info(sent=len(w.ch.sent)))
        w.check_sent()
        ctx.case((role, w.api, style, cfg.options(), 'hs', early[0], tuple(w.times)))
        return
    if not o.ok:
        return ctx.violation('handshake failed: %s' % o.brief(), key='hs', **w.info(outcome=repr(o)))
    w.check_received(hs)
    got_n, pk = hs, hs
    for _ in range(nops):
        if rng.random() < 0.5:
            b = gen.batch(rng, 10, rng.choice([30, 30, 300, 70000]), 75000)
            if rng.random() < 0.02:
                b = [b'%d' % i for i in range(rng.choice([256, 1000, 3000]))]
            ops.append(('w', [len(m) for m in b]))
            r = d.call(w.api, w.s.app_channel, 'write', *b, is_last=rng.random() < 0.2)
            if not r.ok:
                return ctx.violation('write failed: %s' % r.brief(), key='write', **w.info(outcome=repr(r)))
            continue
        b = gen.batch(rng, 10, 60, 300)
        r = rng.random()
        if r < 0.02:
            b = [b'%d' % i for i in range(rng.choice([256, 1000, 3000]))]
        elif r < 0.04:
            b = [gen.fill(rng, rng.choice([65535, 65536, 300000]) if len(b) == 1 else 65535)] * min(3, len(b))
        w.send(b)
        ops.append(('r', len(b), w.times[-1][1]))
        e = ref_at.get(pk)
        pk += 1
        if e is not None:
            ctx.ev('refusals')
            r = d.call(w.api, w.s.app_channel, 'read')
            if r.kind != 'exc' or r.value is not e:
                return ctx.violation('data with a refused time was delivered or the exception was lost: %s' % r.brief(), key='refuse-app-%s' % role,
                                     **w.info(outcome=repr(r)))
            continue
        for m in b:
            r = d.call(w.api, w.s.app_channel, 'read')
            w.log.append(('deliver',))
            if not r.ok or bytes(r.value) != m:
                return ctx.violation('read did not return the next message', key='read', **w.info(outcome=repr(r), want=m))
    w.check_received(pk)
    w.check_sent()
    ctx.case((role, w.api, style, cfg.options(), ops, tuple(w.times)))
    ctx.state((role, w.api, cfg.options(), tuple((e[0], e[1] if e[0] in ('keep', 'check') else '') for e in w.log)))


def defaults(ctx, rng, d, role, t):
    """Default checker: a first time must be 0 or 1; later times are not restricted."""
    World.fixed_first = t
    try:
        w = World(ctx, rng, d, role, None, None, checker=False)
        o = d.call(w.api, w.s, 'handshake')
    finally:
        World.fixed_first = None
    ctx.ev('default_checker_cases')
    ctx.case(('default', role, w.api, t, w.cfg.options()))
    if t in (0, 1):
        ctx.check(o.ok, 'first time %d was not accepted by default: %s' % (t, o.brief()), key='default-accept', **w.info(outcome=repr(o)))
    else:
        ctx.check(o.kind == 'exc' and isinstance(o.value, BadPeer), 'first time %d was not rejected by default: %s' % (t, o.brief()),
                  key='default-reject', **w.info(outcome=repr(o)))
    w.check_sent()
    if o.ok:
        w.send([b'x'])
        r = d.call(w.api, w.s.app_channel, 'read')
        ctx.check(r.ok and bytes(r.value) == b'x', 'default checker refused an application packet: %s' % r.brief(), key='default-app', **w.info())


def nosuch(ctx, rng, d):
    """NoSuchServer answers carry and report times too."""
    log = Log()
    cfg = sess.Cfg(rng, plain=True)
    cfg.sk, cfg.sc = KeeperX(log, rng, 'unique'), CheckerX(log)
    t = gen.times(rng)
    ch = LogEnd(None, [ref.m1(t, cfg.cenc[1], rng.randbytes(32))])
    ch.log = log
    api = rng.choice(['sync', 'async'])
    d.call(api, cfg.server(ch), 'handshake')
    ctx.ev('no_such_server')
    last = [e for e in log if e[0] == 'keep'][-1:]
    ok = len(ch.sent) == 1 and last and last[0][1] == 'first' and ref.d_m2(ch.sent[0])['time'] == last[0][2] and ('check', 'first', t) in log
    ctx.check(ok, 'NoSuchServer answer: time not taken from the keeper or time of M1 not checked', key='nosuch-server', sent=ch.sent, log=str(log)[:300])
    log = Log()
    cfg.ck, cfg.cc = KeeperX(log, rng, 'unique'), CheckerX(log)
    t = gen.times(rng)
    ch = LogEnd(lambda raw: [ref.M2_NO_SUCH(t)])
    ch.log = log
    d.call(api, cfg.client(ch, wanted=rng.randbytes(32)), 'handshake')
    ctx.check([e for e in log if e[0] == 'check'] == [('check', 'first', t)], 'time of a NoSuchServer answer was not checked', key='nosuch-client', log=str(log)[:300])
    ctx.case(('nosuch', api, t))


def independence(ctx, rng, d):
    """Keepers and checkers of different sessions are different objects with their own state."""
    ctx.ev('independence')
    l1, l2 = Log(), Log()
    k1, k2 = KeeperX(l1, rng, 'unique'), KeeperX(l2, rng, 'unique')
    c1, c2 = CheckerX(l1), CheckerX(l2)
    ctx.check(k1 is not k2 and c1 is not c2, 'two time keepers or checkers of the same class are one object', key='shared')
    ch = net.ScriptEnd(None)
    cfg = sess.Cfg(rng, plain=True)
    a, b = cfg.client(ch), cfg.server(ch)
    a.time_keeper, a.time_checker = k1, c1
    fresh = sess.Cfg(rng, plain=True)
    x, y = fresh.client(ch), fresh.server(ch)
    ctx.check(b.time_keeper is not k1 and b.time_checker is not c1 and x.time_keeper is not k1 and y.time_checker is not c1,
              'setting the keeper of one session changes another session', key='leak')
    ctx.check(x.time_keeper.get_first_time() == 0 and x.time_keeper.get_time() == 0 and NullTimeKeeper().get_time() == 0, 'default keeper is not 0', key='default0')
    for t in (0, 1):
        NullTimeChecker().report_first_time(t)
    # interleaved sessions with stateful keepers: each follows its own
    w1, w2 = World(ctx, rng, d, 'client', 'step'), World(ctx, rng, d, 'server', 'step')
    for w in (w1, w2):
        d.call(w.api, w.s, 'handshake')
    for _ in range(4):
        w = rng.choice([w1, w2])
        d.call(w.api, w.s.app_channel, 'write', b'm')
    w1.check_sent()
    w2.check_sent()
    w1.check_received(2)
    w2.check_received(2)
    ctx.case(('independence', w1.cfg.key(), w2.cfg.key()))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500), net.Driver() as d:
        for _ in range(ctx.scale(1500, 40000)):
            script(ctx, rng, d, 'client')
            script(ctx, rng, d, 'server')
        firsts = list(range(0, 8)) + [v for v in gen.literals()[0] if v < 2 ** 32] + [2 ** k + e for k in range(3, 33) for e in (-1, 0, 1)]
        for t in ctx.share(sorted(set(v for v in firsts if v < 2 ** 32))) + [0, 1, rng.randrange(2, 2 ** 32)]:
            for role in ('client', 'server'):
                defaults(ctx, rng, d, role, t)
        for _ in range(ctx.scale(20, 300)):
            nosuch(ctx, rng, d)
            independence(ctx, rng, d)
