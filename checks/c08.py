"""C08 Hostile input only ever causes the documented exceptions."""
from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.exceptions import SaltChannelException
from saltchannel.saltlib import SaltLib
from saltchannel.saltlib.saltlib import LibType

from vlib import gen, hostile, net, ref, sess

PROP = 'C08'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'hostile_messages': 50000, 'client_handshakes': 5000, 'server_handshakes': 5000, 'a1_exchanges': 1000, 'app_reads': 20000,
           'rejected': 20000, 'authenticated_hostile': 10000}
RULE = ('one evaluation = one session (client, server or A1 client; sync or async API; up to two crypto back ends) fed with hostile bytes in one protocol state; '
        'every session call was observed to end normally or with a SaltChannelException; distinct = distinct (state, API, hostile bytes)')


class Watch:
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d

    def call(self, api, obj, name, *args, **info):
        ctx = self.ctx
        o = self.d.call(api, obj, name, *args)
        ctx.ev('calls')
        ctx.state((info.get('where'), name, api, o.brief(), str(o.value)[:40] if o.kind == 'exc' else ''))
        if o.kind == 'exc':
            ctx.ev('rejected')
            ctx.ev('raised_' + type(o.value).__name__)
            if not isinstance(o.value, SaltChannelException):
                ctx.fail_exc('%s() with hostile input raised an undocumented exception' % name, o.value,
                             key='%s-%s-%s' % (info.get('where'), name, type(o.value).__name__), api=api, **info)
                return None
        elif o.kind == 'stuck':
            ctx.violation('%s() hangs' % name, key='hang-' + name, **info)
            return None
        else:
            ctx.ev('returned')
        return o


def seal(rng, sec, clear):
    """Correctly encrypted hostile cleartext, sometimes with odd outer header bits."""
    p = bytearray(sec.seal(clear, rng.random() < 0.2))
    if rng.random() < 0.1:
        p[1] = rng.randrange(256)
    return bytes(p)


class BadServer:
    """Hostile server: behaves well up to a stage, then sends what it was given."""
    def __init__(self, ctx, rng, cfg, stage, payload, more):
        self.ctx, self.rng, self.stage, self.payload, self.more = ctx, rng, stage, payload, more
        self.ref = ref.RefServer(cfg.ssig, cfg.senc)
        self.n = 0

    def __call__(self, raw):
        self.n += 1
        if self.n > 1:
            return []
        r, rng = self.ref, self.rng
        r.on_m1(raw)
        if self.stage == 'm2':
            try:
                d = ref.d_m2(self.payload)
                r.m2 = self.payload
                r.key = ref.shared(r.sig and r.enc[0], bytes(raw[10:42]))
                del d
            except Exception:
                r.m2 = b''
            return [self.payload, r.m3()] + self.more
        m2 = r.hello(rng.choice([0, 1]))
        if self.stage == 'm3raw':
            return [m2, self.payload] + self.more
        if self.stage == 'm3':
            self.ctx.ev('authenticated_hostile')
            return [m2, seal(rng, r.sec, self.payload)] + self.more
        return [m2, r.m3(rng.choice([0, 1, 2 ** 32 - 1]))]


def client(ctx, w, rng, api, stage, payload, more=(), app=()):
    cfg = sess.Cfg(rng)
    peer = BadServer(ctx, rng, cfg, stage, payload, list(more))
    ch = net.ScriptEnd(peer)
    s = cfg.client(ch)
    ctx.ev('client_handshakes')
    ctx.ev('hostile_messages', 1 + len(more))
    info = dict(where='client-' + stage, payload=payload, options=cfg.options())
    o = w.call(api, s, 'handshake', **info)
    ctx.case(('client', stage, api, payload, cfg.options()))
    if stage == 'app':
        if o is None or not o.ok:
            return None if o is None else ctx.violation('honest handshake failed', key='honest', outcome=repr(o))
        return apps(ctx, w, rng, api, s, ch, peer.ref.sec, app, info)


def server(ctx, w, rng, api, stage, payload, more=(), app=()):
    cfg = sess.Cfg(rng)
    cfg.buf4 = False
    c = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
    box = {'m': 0}

    def peer(raw):
        box['m'] += 1
        if box['m'] == 1:
            try:
                c.on_m2(raw)
            except Exception:
                return list(more)
            return []
        if box['m'] == 2:
            try:
                c.on_m3(raw)
            except Exception:
                return list(more)
            if stage == 'm4':
                ctx.ev('authenticated_hostile')
                return [seal(rng, c.sec, payload)] + list(more)
            if stage == 'm4raw':
                return [payload] + list(more)
            if stage == 'app':
                return [c.m4(rng.choice([0, 2 ** 32 - 1, 5]))]
            return list(more)
        return []
    first = payload if stage == 'm1' else c.hello(rng.choice([0, 1]))
    if stage == 'm1':
        c.m1 = payload
    ch = net.ScriptEnd(peer, [first])
    s = cfg.server(ch)
    ctx.ev('server_handshakes')
    ctx.ev('hostile_messages', 1 + len(more))
    info = dict(where='server-' + stage, payload=payload, options=cfg.options())
    o = w.call(api, s, 'handshake', **info)
    ctx.case(('server', stage, api, payload, cfg.options()))
    if stage == 'app':
        if o is None or not o.ok:
            return None if o is None else ctx.violation('honest handshake failed', key='honest', outcome=repr(o))
        return apps(ctx, w, rng, api, s, ch, c.sec, app, info)


def apps(ctx, w, rng, api, s, ch, sec, items, info):
    """items: [(authenticated, bytes)]"""
    for auth, b in items:
        raw = seal(rng, sec, b) if auth else b
        ctx.ev('hostile_messages')
        if auth:
            ctx.ev('authenticated_hostile')
        ch.inbox.append(raw)
    k = 0
    while ch.inbox and k < 400:
        before = len(ch.inbox)
        i = dict(info, payload=[b for _, b in items][:6], where=info['where'])
        o = w.call(api, s.app_channel, 'read', **i)
        ctx.ev('app_reads')
        k += 1
        if o is None:
            return
        if o.kind == 'exc' and len(ch.inbox) >= before:
            ctx.violation('read() raises without consuming input', key='noconsume', **i)
            return
        if before - len(ch.inbox) > 1 or o.kind == 'exc' and isinstance(o.value, net.Cut):
            ctx.violation('read() passes over a message of the peer in silence', key='skipped', consumed=before - len(ch.inbox), outcome=repr(o), **i)
            return
        if rng.random() < 0.05 and w.call(api, s.app_channel, 'write', b'reply', where='write-after') is None:
            return
    # whatever came, writing still works or fails in the documented way
    w.call(api, s.app_channel, 'write', b'end', b'of', where='write-after')


def a1(ctx, w, rng, api, payload):
    ch = net.ScriptEnd(lambda raw: [payload])
    s = A1ClientSession(ch)
    ctx.ev('a1_exchanges')
    ctx.ev('hostile_messages')
    w.call(api, s, 'do_a1a2', where='a1', payload=payload)
    ctx.case(('a1', api, payload))


def systematic(rng):
    """Truncations, extensions and header bytes of every packet type."""
    for name in hostile.NAMES:
        v = hostile.valid(rng, name)
        if len(v) > 400:
            v = hostile.valid(rng, 'APP')[:300]
        for n in range(len(v)):
            yield v[:n]
        for x in (b'\x00', b'\xff', b'ab', bytes(20), bytes(32)):
            yield v + x
        for i in range(min(len(v), 12)):
            for x in (0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 32, 33, 127, 128, 129, 254, 255):
                yield v[:i] + bytes([x]) + v[i + 1:]
    for t in range(256):
        for n in (1, 2, 3, 6, 8, 38, 42, 102):
            yield (bytes([t]) + bytes(200))[:n]
            yield (bytes([t]) + b'\xff' * 200)[:n]
    for k in hostile.LOW_ORDER:
        yield ref.m1(0, k)
        yield ref.m2(0, k)
        yield ref.m3(0, k, bytes(64))
        yield ref.m4(0, k, bytes(64))
        yield ref.a1(1, k)
    for t in (2, 3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        yield ref.m1(t, rng.randbytes(32))
        yield ref.m2(t, rng.randbytes(32))
    for n in (1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535):
        yield ref.multi(0, [b''] * min(n, 70), count=n)
        yield ref.multi(0, [b''] * n)
        yield ref.multi(0, [b'a'], count=n)
    for n in (65530, 65535, 65536, 70000):
        yield bytes(n)
        yield ref.app(0, bytes(n))
        yield ref.a1(1, bytes(n), size=n % 65536)
        yield b'\x06\x00' + bytes(n)


def run(ctx):
    rng = ctx.rng
    if ctx.shard in (1, 5):
        SaltLib(LibType.LIB_TYPE_PYNACL)          # the sessions of this shard use another back end
        ctx.ev('backend_pynacl')
    if ctx.shard == 3:
        SaltLib(LibType.LIB_TYPE_TWEETNACL_EXT)
        ctx.ev('backend_tweetnacl')
    with net.Driver() as d:
        w = Watch(ctx, d)

        def stages(b):
            api = rng.choice(['sync', 'async'])
            client(ctx, w, rng, api, 'm2', b)
            client(ctx, w, rng, api, 'm3raw', b)
            client(ctx, w, rng, api, 'm3', b)
            server(ctx, w, rng, api, 'm1', b)
            server(ctx, w, rng, api, 'm4raw', b)
            server(ctx, w, rng, api, 'm4', b)
            a1(ctx, w, rng, api, b)
        with ctx.cpu_guard(3000):
            allsys = list(systematic(rng))
            for b in ctx.share(allsys):
                stages(b)
            pend = [(auth, b) for b in ctx.share(allsys) for auth in (True, False)]
            rng.shuffle(pend)
            while pend:
                k = rng.randrange(1, 12)
                part, pend = pend[:k], pend[k:]
                (client if rng.random() < 0.5 else server)(ctx, w, rng, rng.choice(['sync', 'async']), 'app', b'', app=part)
            for _ in range(ctx.scale(900, 30000)):
                stages(hostile.raw(rng))
            for _ in range(ctx.scale(700, 20000)):
                items = [(rng.random() < 0.75, hostile.raw(rng)) for _ in range(rng.randrange(1, 10))]
                (client if rng.random() < 0.5 else server)(ctx, w, rng, rng.choice(['sync', 'async']), 'app', b'', app=items)
            # hostile messages after a hostile message: no state makes the next call misbehave
            for _ in range(ctx.scale(300, 8000)):
                more = [hostile.raw(rng) for _ in range(rng.randrange(1, 4))]
                client(ctx, w, rng, rng.choice(['sync', 'async']), rng.choice(['m2', 'm3', 'm3raw']), hostile.raw(rng), more)
                server(ctx, w, rng, rng.choice(['sync', 'async']), rng.choice(['m1', 'm4', 'm4raw']), hostile.raw(rng), more)
