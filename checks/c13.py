"""C13 A client that names a server gets that server or an exception."""
from saltchannel.exceptions import BadPeer, NoSuchServerException

from vlib import gen, net, ref, sess

PROP = 'C13'
BOOST = 6
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'right_server': 500, 'no_name': 500, 'wrong_server_pairs': 2000, 'bit_neighbours': 256, 'lying_servers': 2000, 'lying_nobody': 1000, 'm1_checked': 3000,
           'no_such_answers_checked': 2000}
RULE = ('one evaluation = one handshake attempt of a client with a given wanted key against a real server or a lying reference server; '
        'distinct = distinct (wanted, actual, kind of server, API)')


def variants(rng, key):
    """Keys that are easily confused with key."""
    r = rng.randrange(9)
    k = bytearray(key)
    if r == 0:
        return rng.randbytes(32)
    if r == 1:
        return key[:31] + bytes([key[31] ^ rng.randrange(1, 256)])
    if r == 2:
        return bytes([key[0] ^ rng.randrange(1, 256)]) + key[1:]
    if r == 3:
        return key[::-1]
    if r == 4:
        return key[1:] + key[:1]
    if r == 5:
        i = rng.randrange(32)
        return key[:i] + rng.randbytes(32 - i)
    if r == 6:
        i = rng.randrange(1, 33)
        return rng.randbytes(i) + key[i:]
    if r == 7:
        return rng.choice([bytes(32), b'\xff' * 32, bytes(31) + b'\x80', b'\x01' + bytes(31)])
    k[31] ^= 0x80
    return bytes(k)


def m1_ok(ctx, raw, want_key, **info):
    ctx.ev('m1_checked')
    try:
        d = ref.d_m1(raw)
        good = d['used'] == len(raw) and d['wanted'] == (want_key or b'') and d['flags'] == (1 if want_key else 0)
    except ref.Bad:
        good = False
    return ctx.check(good, 'M1 does not carry exactly the wanted key', key='m1', raw=raw, **info)


def real(ctx, rng, wanted_of, label):
    """Two real sessions. wanted_of(server public key) -> wanted key or None"""
    cfg = sess.Cfg(rng)
    cfg.want = False
    wanted = wanted_of(cfg.ssig[1])
    link = net.Link(rng, rng.choice([0, 0, 2]))
    made = {}
    sync = rng.random() < 0.1
    E = net.SyncEnd if sync else net.AsyncEnd
    w = wanted if wanted is None or rng.random() < 0.8 else bytearray(wanted)

    if sync:
        def client():
            c = made['c'] = cfg.client(E(link, 'c'), wanted=w)
            c.handshake_sync()
            c.app_channel.write_sync(b'x')

        def server():
            s = made['s'] = cfg.server(E(link, 's'))
            s.handshake_sync()
        res = net.run_threads(link, {'c': client, 's': server})
    else:
        async def client():
            c = made['c'] = cfg.client(E(link, 'c'), wanted=w)
            await c.handshake()
            await c.app_channel.write(b'x')

        async def server():
            s = made['s'] = cfg.server(E(link, 's'))
            await s.handshake()
        res = net.run_async({'c': client, 's': server})
    info = dict(label=label, options=cfg.options(), wanted=wanted or b'', actual=cfg.ssig[1], outcome={k: repr(v) for k, v in res.items()})
    ctx.case((label, sync, wanted, cfg.ssig[1]))
    ctx.state((label, sync, cfg.options(), res['c'].brief(), res['s'].brief(), len(link.sent['s'])))
    m1_ok(ctx, link.sent['c'][0][0], wanted, **info)
    if wanted is None or wanted == cfg.ssig[1]:
        ctx.ev('no_name' if wanted is None else 'right_server')
        if not (res['c'].ok and res['s'].ok):
            return ctx.violation('handshake with the %s server failed' % ('named' if wanted else 'unnamed'), key='accept-%s' % bool(wanted), **info)
        ctx.check(bytes(made['c'].m3.ServerSigKey) == cfg.ssig[1], 'client reports another server key', key='m3', **info)
        return
    ctx.ev('wrong_server_pairs')
    for side in 'cs':
        o = res[side]
        if o.kind != 'exc' or not isinstance(o.value, NoSuchServerException):
            return ctx.violation('wrong server: %s did not raise NoSuchServerException but %s' % (side, o.brief()), key='nosuch-' + side, **info)
    answer(ctx, cfg, [m[0] for m in link.sent['s']], info)
    ctx.check(all(m[1] for m in link.sent['s']), 'the channel is not told that the NoSuchServer answer is the last message', key='answer-last', **info)
    ctx.check(len(link.sent['c']) == 1, 'client sent more than M1 to a wrong server', key='client-more', **info)


def answer(ctx, cfg, sent, info):
    ctx.ev('no_such_answers_checked')
    ok = len(sent) == 1
    if ok:
        try:
            d = ref.d_m2(sent[0])
            ok = d['used'] == len(sent[0]) and d['flags'] == 0x81 and not any(d['enc'])
        except ref.Bad:
            ok = False
    ctx.check(ok, 'NoSuchServer answer is not exactly an M2 with NoSuchServer, LastFlag and no key', key='answer', sent=sent, **info)
    blob = b''.join(sent)
    for k in (cfg.ssig[1], cfg.senc[1], cfg.senc[0], cfg.ssig[0][:32]):
        ctx.check(len(set(k)) < 8 or k not in blob, 'NoSuchServer answer contains key material of the server', key='answer-key', sent=sent, **info)


def used_server(ctx, rng, d, s):
    """The server session has served someone before."""
    peer = ref.RefClient(gen.keys(rng, 'sig'), gen.keys(rng, 'enc'), None)
    ch = s.clear_channel = net.ScriptEnd(None, [peer.hello(0)])

    def on(raw):
        if raw[:1] != b'\x02':
            return []
        peer.on_m2(raw)
        return [peer.m4(0)]
    ch.peer = on
    o = d.call(rng.choice(['sync', 'async']), s, 'handshake')
    ctx.ev('used_servers')
    return o.ok


def used_client(ctx, rng, d, c):
    """The client session was with another server before, one it asked for or not."""
    other = gen.keys(rng, 'sig')
    srv = ref.RefServer(other, gen.keys(rng, 'enc'))

    def on(raw):
        if len(ch.sent) != 1:
            return []
        srv.on_m1(raw)
        return [srv.hello(0), srv.m3(0)]
    ch = c.clear_channel = net.ScriptEnd(on)
    c.wanted_server_sig_key = rng.choice([other[1], None])
    o = d.call(rng.choice(['sync', 'async']), c, 'handshake')
    ctx.ev('used_clients')
    return o.ok


def alone(ctx, rng, d, wanted_of, label):
    """The real server alone with a hand-made M1."""
    cfg = sess.Cfg(rng)
    wanted = wanted_of(cfg.ssig[1])
    if wanted is None or wanted == cfg.ssig[1]:
        return
    api = rng.choice(['sync', 'async'])
    ch = net.ScriptEnd(None, [ref.m1(rng.choice([0, 1]), cfg.cenc[1], wanted)])
    s = cfg.server(ch)
    used = rng.random() < 0.2
    if used:
        if not used_server(ctx, rng, d, s):
            return ctx.violation('a server session does not complete a handshake with an honest client', key='used-server', options=cfg.options())
        s.clear_channel = ch
    o = d.call(api, s, 'handshake')
    info = dict(label=label, used=used, api=api, options=cfg.options(), wanted=wanted, actual=cfg.ssig[1], outcome=repr(o))
    ctx.ev('wrong_server_pairs')
    ctx.case(('alone', label, api, wanted, cfg.ssig[1]))
    if o.kind != 'exc' or not isinstance(o.value, NoSuchServerException):
        return ctx.violation('server asked for another key did not raise NoSuchServerException but %s' % o.brief(), key='alone', **info)
    answer(ctx, cfg, ch.sent, info)
    ctx.check(all(x[1] for x in ch.calls), 'the channel is not told that the NoSuchServer answer is the last message', key='answer-last', **info)


def lying(ctx, rng, d):
    """A server that does not own the wanted key and answers nevertheless."""
    cfg = sess.Cfg(rng)
    real_key = gen.keys(rng, 'sig')                      # what the client wants
    while real_key[1] == cfg.ssig[1]:
        real_key = gen.keys(rng, 'sig')
    wanted = real_key[1]
    nobody = rng.random() < 0.3
    if nobody:                                           # a key whose owner (if any) is not around, of an unusual form
        n = rng.randrange(1, 33)
        fill = bytes([rng.choice([0, 0, 0, 255, 32, 48, rng.randrange(256)])])
        base = rng.choice([rng.randbytes(32), cfg.ssig[1], cfg.csig[1], cfg.senc[1], cfg.cenc[1]])
        wanted = rng.choice([fill * n + base[n:], base[:32 - n] + fill * n, fill * 32, base[:16] * 2, base, cfg.csig[1], cfg.senc[1], cfg.cenc[1]])
        if wanted == cfg.ssig[1]:
            return
        ctx.ev('lying_nobody')
    kind = rng.choice(['own', 'own', 'near', 'claim', 'claim-oldsig', 'nosuch-m2', 'nosuch-key', 'nosuch-nolast', 'honest', 'prefix', 'selfsig-shift', 'unset-own'])
    if nobody:
        kind = rng.choice(['own', 'own', 'own', 'near', 'claim'])
    srv = ref.RefServer(cfg.ssig, cfg.senc)

    def peer(raw):
        if len(ch.sent) != 1:
            return []
        srv.on_m1(raw)
        m2 = srv.hello(rng.choice([0, 1]))
        if kind == 'nosuch-m2':
            return [ref.M2_NO_SUCH(0)]
        if kind == 'nosuch-key':                          # says that it is not the one, and goes on
            srv.m2 = ref.m2(rng.choice([0, 1]), rng.choice([cfg.senc[1], cfg.senc[1], rng.randbytes(32)]), flags=0x81)
            return [srv.m2, srv.m3()]
        if kind == 'nosuch-nolast':
            return [ref.m2(0, cfg.senc[1], flags=1), srv.m3()]
        h = ref.sha512(srv.m1) + ref.sha512(m2)
        sig = ref.sign(ref.SIG1 + h, cfg.ssig[0])
        key = cfg.ssig[1]
        if kind == 'honest':
            key, sig = wanted, ref.sign(ref.SIG1 + h, real_key[0])
        elif kind == 'claim':
            key = wanted                                   # claims the wanted key with its own signature
        elif kind == 'claim-oldsig':
            key, sig = wanted, ref.sign(ref.SIG1 + rng.randbytes(128), real_key[0])
        elif kind == 'near':
            key = variants(rng, wanted)
        elif kind == 'prefix':
            key, sig = wanted, ref.sign(rng.choice([ref.SIG2, b'SC-SIG00', b'']) + h, real_key[0])
        elif kind == 'selfsig-shift':
            key, sig = wanted, ref.sign(h, real_key[0])
        return [m2, srv.sec.seal(ref.m3(0, key, sig), rng.random() < 0.2)]
    ch = net.ScriptEnd(peer)
    api = rng.choice(['sync', 'async'])
    c = cfg.client(ch, wanted=b'' if kind == 'unset-own' else wanted)
    used = rng.random() < 0.2
    if used:
        if not used_client(ctx, rng, d, c):
            return ctx.violation('a client session does not complete a handshake with an honest server', key='used-client', options=cfg.options())
        c.clear_channel, c.wanted_server_sig_key = ch, b'' if kind == 'unset-own' else wanted
    o = d.call(api, c, 'handshake')
    info = dict(kind=kind, used=used, api=api, options=cfg.options(), wanted=wanted, outcome=repr(o))
    ctx.ev('lying_servers')
    ctx.ev('lying_' + kind)
    ctx.case(('lying', kind, api, wanted, cfg.ssig[1]))
    ctx.state(('lying', kind, api, cfg.options(), o.brief()))
    m1_ok(ctx, ch.sent[0], None if kind == 'unset-own' else wanted, **info)
    if kind in ('honest', 'unset-own'):
        ctx.check(o.ok, 'client refused a server that owns the wanted key: %s' % o.brief(), key='lying-honest', **info)
        return
    if kind.startswith('nosuch'):
        ctx.check(o.kind == 'exc' and isinstance(o.value, NoSuchServerException if kind != 'nosuch-nolast' else (NoSuchServerException, BadPeer)),
                  'client did not report NoSuchServer: %s' % o.brief(), key='lying-nosuch', **info)
    else:
        ctx.check(o.kind == 'exc' and isinstance(o.value, BadPeer), 'client accepted a server that does not own the wanted key: %s' % o.brief(),
                  key='lying-accepted', **info)
    ctx.check(len(ch.sent) == 1, 'client sent its identity to a server that does not own the wanted key', key='lying-m4', **info)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500), net.Driver() as d:
        for _ in range(ctx.scale(250, 8000)):
            real(ctx, rng, lambda pub: None, 'unset')
            real(ctx, rng, lambda pub: pub, 'equal')
            real(ctx, rng, lambda pub: variants(rng, pub), 'variant')
            alone(ctx, rng, d, lambda pub: variants(rng, pub), 'variant')
        for bit in ctx.share(range(256)):
            f = lambda pub: bytes(b ^ (1 << bit % 8 if i == bit // 8 else 0) for i, b in enumerate(pub))   # noqa: E731
            for _ in range(ctx.scale(3, 20)):
                real(ctx, rng, f, 'bit %d' % bit)
                alone(ctx, rng, d, f, 'bit %d' % bit)
            ctx.ev('bit_neighbours')
        for _ in range(ctx.scale(1000, 30000)):
            lying(ctx, rng, d)
