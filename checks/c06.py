"""C06 Wire format interoperates with any conforming Salt Channel v2 peer."""
from vlib import gen, net, ref, sess

PROP = 'C06'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'client_sessions': 300, 'server_sessions': 300, 'messages_compared': 5000, 'app_packets_compared': 2000, 'peer_messages_read': 2000, 'size_points': 100,
           'count_points': 50, 'sum_points': 12}
RULE = ('one evaluation = one complete session of a real endpoint with the independent reference peer in the other role, every written byte compared '
        'with the predicted bytes; distinct = distinct (role, options, times, application traffic)')


def expected_app(msgs, time):
    """Cleartexts of the packets one write has to produce."""
    if 2 <= len(msgs) <= 65535 and all(len(m) <= 65535 for m in msgs):
        return [ref.multi(time, msgs)]
    return [ref.app(time, m) for m in msgs]


class Mismatch(Exception):
    pass


def eq(ctx, what, got, want, info):
    ctx.ev('messages_compared')
    ctx.ev('oracle_evaluations')
    if got != want:
        i = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        ctx.violation('%s differs from the Salt Channel v2 format at byte %d' % (what, i), key='bytes-%s' % what, got=got[max(0, i - 4):i + 40],
                      want=want[max(0, i - 4):i + 40], got_len=len(got), want_len=len(want), **info)
        raise Mismatch()


def peer_batches(rng):
    """What the reference peer sends: AppPackets and MultiAppPackets, also MultiAppPackets with one message."""
    out = []
    for _ in range(rng.randrange(0, 4)):
        b = gen.batch(rng, 30, 3000, 5000)
        if rng.random() < 0.5:
            b = [m[:65535] for m in b]
            out.append(('multi', b))
        else:
            out.append(('app', b[:1]))
    return out


def traffic(ctx, d, api, app, sec, ch, keeper_last, rng, info, batches, sent0, peer_time):
    """Application phase: real side writes batches, reference peer sends its own."""
    n = sent0

    def peer_sends(kind, b, flag):
        clear = ref.multi(peer_time, b) if kind == 'multi' else ref.app(peer_time, b[0])
        ch.inbox.append(ref.enc(ref.box(clear, sec['in'], sec['key']), flag))
        sec['in'] += 2
        for m in b:
            ctx.ev('peer_messages_read')
            o = d.call(api, app, 'read')
            if not o.ok or bytes(o.value) != m:
                ctx.violation('message of a conforming peer not read correctly (%s)' % o.brief(), key='read-' + kind, want=m, got=repr(o), **info)
                raise Mismatch()
    for b, last in batches:
        if rng.random() < 0.4:
            for kind, pb in peer_batches(rng)[:2]:
                peer_sends(kind, pb, rng.random() < 0.5)
        kw = {} if last is None else {'is_last': last}
        o = d.call(api, app, 'write', *[gen.typed(rng, m) for m in b], **kw)
        if not o.ok:
            ctx.violation('write failed: %s' % o.brief(), key='write-' + o.brief(), outcome=repr(o), **info)
            raise Mismatch()
        want = expected_app(b, keeper_last())
        new = ch.sent[n:]
        n = len(ch.sent)
        if len(new) != len(want):
            ctx.violation('write produced %d packets instead of %d' % (len(new), len(want)), key='packets', shape=[len(m) for m in b][:20], **info)
            raise Mismatch()
        for i, (raw, clear) in enumerate(zip(new, want)):
            ctx.ev('app_packets_compared')
            nv = sec['out']
            sec['out'] += 2
            eq(ctx, 'application packet', raw, ref.enc(ref.box(clear, nv, sec['key']), bool(last) and i == len(want) - 1), info)
    for kind, b in peer_batches(rng):
        peer_sends(kind, b, rng.random() < 0.2)
    return n


def make_batches(rng, special=None):
    if special is not None:
        return special
    return [(gen.batch(rng, 40, rng.choice([40, 500, 70000]), 80000), rng.choice([None, None, False, True])) for _ in range(rng.randrange(1, 5))]


def client(ctx, d, rng, special=None, label='random'):
    cfg = sess.Cfg(rng)
    sess.random_times(cfg, rng)
    api = rng.choice(['async', 'sync'])
    srv = ref.RefServer(cfg.ssig, cfg.senc)
    st = {'n': 0}
    t2, t3 = rng.choice([0, 1]), gen.times(rng)

    def peer(raw):
        st['n'] += 1
        if st['n'] == 1:
            srv.on_m1(raw)
            return [srv.hello(t2), srv.m3(t3)]
        return []
    ch = net.ScriptEnd(peer)
    c = cfg.client(ch)
    info = dict(role='client', options=cfg.options(), api=api, label=label, csig=cfg.csig[0].hex()[:64], cenc=cfg.cenc[0].hex(), ssig=cfg.ssig[0].hex()[:64], senc=cfg.senc[0].hex())
    log = cfg.ck.log if cfg.ck else [('first', 0)]
    last = (lambda: log[-1][1]) if cfg.ck else (lambda: 0)
    o = d.call(api, c, 'handshake')
    if not o.ok:
        return ctx.violation('handshake with a conforming server failed: %s' % o.brief(), key='hs-client-' + o.brief(), outcome=repr(o), **info)
    first = [v for k, v in log if k == 'first'][-1]
    batches = make_batches(rng, special)
    try:
        eq(ctx, 'M1', ch.sent[0], ref.m1(first, cfg.cenc[1], cfg.ssig[1] if cfg.want else None), info)
        sec = {'key': srv.key, 'out': 3, 'in': 4}
        h = ref.sha512(ch.sent[0]) + ref.sha512(srv.m2)
        sig = ref.sign(ref.SIG2 + h, cfg.csig[0])
        n = 1
        if not cfg.buf4:
            eq(ctx, 'M4', ch.sent[1] if len(ch.sent) > 1 else b'', ref.enc(ref.box(ref.m4(last(), cfg.csig[1], sig), 1, srv.key)), info)
            n = 2
            if len(ch.sent) != 2:
                ctx.violation('handshake wrote %d messages' % len(ch.sent), key='hs-messages', **info)
                return
            traffic(ctx, d, api, c.app_channel, sec, ch, last, rng, info, batches, n, gen.times(rng))
        else:
            if len(ch.sent) != 1:
                ctx.violation('buffer_M4: handshake wrote %d messages' % len(ch.sent), key='hs-messages', **info)
                return
            b, lastf = batches[0]
            kw = {} if lastf is None else {'is_last': lastf}
            o = d.call(api, c.app_channel, 'write', *b, **kw)
            if not o.ok:
                return ctx.violation('first write failed: %s' % o.brief(), key='write-' + o.brief(), outcome=repr(o), **info)
            want = [ref.enc(ref.box(ref.m4(last(), cfg.csig[1], sig), 1, srv.key))]
            cl = expected_app(b, last())
            for i, x in enumerate(cl):
                want.append(ref.enc(ref.box(x, sec['out'], srv.key), bool(lastf) and i == len(cl) - 1))
                sec['out'] += 2
            if len(ch.sent) != 1 + len(want):
                return ctx.violation('first write with buffered M4 produced %d packets' % (len(ch.sent) - 1), key='packets-m4', **info)
            for i, w in enumerate(want):
                eq(ctx, 'buffered M4' if i == 0 else 'application packet', ch.sent[1 + i], w, info)
            traffic(ctx, d, api, c.app_channel, sec, ch, last, rng, info, batches[1:], len(ch.sent), gen.times(rng))
    except Mismatch:
        pass
    ctx.ev('client_sessions')
    ctx.case(('client', cfg.options(), api, label, [[len(m) for m in b] for b, _ in batches], first, t2, t3))


def server(ctx, d, rng, special=None, label='random'):
    cfg = sess.Cfg(rng)
    sess.random_times(cfg, rng)
    api = rng.choice(['async', 'sync'])
    cl = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
    st = {'n': 0}
    log = cfg.sk.log if cfg.sk else [('first', 0)]
    last = (lambda: log[-1][1]) if cfg.sk else (lambda: 0)
    problems = []

    def peer(raw):
        st['n'] += 1
        try:
            if st['n'] == 1:
                cl.on_m2(raw)
                st['t2'] = log[-1][1]
            elif st['n'] == 2:
                cl.on_m3(raw)
                st['t3'] = log[-1][1]
                return [cl.m4(gen.times(rng))]
        except ref.Bad as e:
            problems.append(str(e))
        return []
    ch = net.ScriptEnd(peer, [cl.hello(rng.choice([0, 1]))])
    s = cfg.server(ch)
    info = dict(role='server', options=cfg.options(), api=api, label=label, csig=cfg.csig[0].hex()[:64], cenc=cfg.cenc[0].hex(), ssig=cfg.ssig[0].hex()[:64], senc=cfg.senc[0].hex())
    o = d.call(api, s, 'handshake')
    if problems or not o.ok:
        return ctx.violation('handshake with a conforming client failed: %s %s' % (o.brief(), problems), key='hs-server-' + o.brief(), outcome=repr(o), **info)
    batches = make_batches(rng, special)
    try:
        if len(ch.sent) != 2:
            return ctx.violation('handshake wrote %d messages' % len(ch.sent), key='hs-messages-s', **info)
        # buffered, the server may ask its keeper again; M2 carries one of the answers (C12 says which)
        firsts = [v for k, v in log if k == 'first']
        got2 = int.from_bytes(ch.sent[0][2:6], 'little')
        eq(ctx, 'M2', ch.sent[0], ref.m2(got2 if got2 in firsts else firsts[-1], cfg.senc[1]), info)
        sig = ref.sign(ref.SIG1 + ref.sha512(cl.m1) + ref.sha512(ch.sent[0]), cfg.ssig[0])
        eq(ctx, 'M3', ch.sent[1], ref.enc(ref.box(ref.m3(st['t3'], cfg.ssig[1], sig), 2, cl.key)), info)
        sec = {'key': cl.key, 'out': 4, 'in': 3}
        traffic(ctx, d, api, s.app_channel, sec, ch, last, rng, info, batches, 2, gen.times(rng))
    except Mismatch:
        pass
    ctx.ev('server_sessions')
    ctx.case(('server', cfg.options(), api, label, [[len(m) for m in b] for b, _ in batches]))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500), net.Driver() as d:
        for _ in range(ctx.scale(400, 8000)):
            client(ctx, d, rng)
            server(ctx, d, rng)
        for n in ctx.share(gen.sizes(70000)):
            for f in (client, server):
                f(ctx, d, rng, [([gen.fill(rng, n)], None), ([b'x', gen.fill(rng, n), b''], True), ([b'y'], None)], 'size %d' % n)
            ctx.ev('size_points')
        for n in ctx.share(gen.counts(300) + [1000, 1024, 65534, 65535, 65536]):
            if n > 2000 and ctx.tier == 'quick':
                fs = [rng.choice([client, server])]
            else:
                fs = [client, server]
            for f in fs:
                f(ctx, d, rng, [([b'%d' % i for i in range(n)], None), ([b'y'], None)], 'count %d' % n)
            ctx.ev('count_points')
        # batches with a large sum: many messages up to the largest size a MultiAppPacket takes
        for n, size in ctx.share([(2, 65535), (3, 40000), (16, 65535), (17, 65535), (30, 65535), (70, 65535), (260, 65535), (1100, 16384), (5000, 3000), (65535, 20), (65535, 70), (20000, 260)]):
            f = rng.choice([client, server])
            m = gen.fill(rng, size)
            f(ctx, d, rng, [([m] * n, None), ([b'y'], None)], 'sum %d' % (n * size))
            ctx.ev('sum_points')
