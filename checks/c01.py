"""C01 An honest handshake always completes and both sides agree."""
from vlib import gen, net, ref, sess

PROP = 'C01'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'handshakes_async': 1000, 'handshakes_sync': 100, 'agreements_checked': 1000, 'mode_buf4': 100, 'mode_buf2': 100,
           'mode_want': 100, 'echo_checked': 1000, 'handshakes_without_keys': 200, 'handshakes_again': 500}
RULE = ('one evaluation = one handshake of two real sessions over an instrumented transport with its own keys, options, time keepers, '
        'scheduling jitter and API; distinct = distinct (keys, options, API, interleaving)')


def one(ctx, rng, mode):
    cfg = sess.Cfg(rng)
    sess.random_times(cfg, rng)
    jitter = rng.choice([0, 0, 1, 2, 5])
    link = net.Link(rng, jitter)
    made = {}
    ping, pong = gen.message(rng, 300), gen.message(rng, 300)

    if mode == 'async':
        async def client():
            c = made['c'] = cfg.client(net.AsyncEnd(link, 'c'))
            await c.handshake()
            await c.app_channel.write(ping)
            return await c.app_channel.read()

        async def server():
            s = made['s'] = cfg.server(net.AsyncEnd(link, 's'))
            await s.handshake()
            got = await s.app_channel.read()
            await s.app_channel.write(pong)
            return got
        order = [('c', client), ('s', server)]
        if rng.random() < 0.5:
            order.reverse()
        res = net.run_async(dict(order))
    else:
        def client():
            c = made['c'] = cfg.client(net.SyncEnd(link, 'c'))
            c.handshake_sync()
            c.app_channel.write_sync(ping)
            return c.app_channel.read_sync()

        def server():
            s = made['s'] = cfg.server(net.SyncEnd(link, 's'))
            s.handshake_sync()
            got = s.app_channel.read_sync()
            s.app_channel.write_sync(pong)
            return got
        res = net.run_threads(link, {'c': client, 's': server})

    ctx.case((mode, cfg.key(), jitter, tuple(link.trace)))
    ctx.state((mode, cfg.options(), tuple(t[:2] for t in link.trace)))
    ctx.ev('handshakes_' + mode)
    for o in ('want', 'buf4', 'buf2'):
        if getattr(cfg, o):
            ctx.ev('mode_' + o)
    info = dict(mode=mode, options=cfg.options(), csig=cfg.csig[0].hex(), ssig=cfg.ssig[0].hex(), cenc=cfg.cenc[0].hex(), senc=cfg.senc[0].hex(),
                outcome={k: repr(v) for k, v in res.items()}, trace=str(link.trace)[:400])
    for side, name in (('c', 'client'), ('s', 'server')):
        if not res[side].ok:
            return ctx.violation('honest handshake: %s %s' % (name, res[side].brief()), key='honest-%s-%s' % (name, res[side].brief()), **info)
    ctx.ev('agreements_checked')
    bad = sess.agreed(cfg, made['c'], made['s'])
    ctx.check(not bad, 'peers do not agree: %s' % bad, key='agree-%s' % bad, **info)
    ctx.check(not getattr(made['s'], 'is_done', True), 'is_done is set after a handshake', key='is_done', **info)
    ctx.ev('echo_checked')
    ctx.check(bytes(res['s'].value) == ping and bytes(res['c'].value) == pong, 'application data is not delivered after the handshake',
              key='echo', ping=ping, got=res['s'].value, pong=pong, got2=res['c'].value, **info)


def unset(ctx, rng, d, side, api):
    """handshake() of a session that was given no ephemeral keys; then the keys are set and it is used normally."""
    cfg = sess.Cfg(rng)
    st = {'n': 0}
    peer = ref.RefServer(cfg.ssig, cfg.senc) if side == 'c' else ref.RefClient(cfg.csig, cfg.cenc)

    def answer(m):
        st['n'] += 1
        if side == 'c':
            if st['n'] == 1:
                peer.on_m1(m)
                return [peer.hello(0), peer.m3(0)]
            return []
        if st['n'] == 1:
            peer.on_m2(m)
            return []
        peer.on_m3(m)
        return [peer.m4(0)]
    ch = net.ScriptEnd(answer, [peer.hello(0)] if side == 's' else [])
    s = cfg.client(ch) if side == 'c' else cfg.server(ch)
    keys = s.enc_keypair
    s.enc_keypair = None
    o = d.call(api, s, 'handshake')
    ctx.case(('unset', side, api, cfg.key()))
    ctx.ev('handshakes_without_keys')
    info = dict(side=side, api=api, options=cfg.options(), outcome=repr(o))
    if o.kind != 'exc' or not isinstance(o.value, ValueError):
        return ctx.violation('handshake without enc_keypair: %s' % o.brief(), key='unset-' + side, **info)
    ctx.check(not ch.sent, 'handshake without enc_keypair sent something', key='unset-sent', sent=ch.sent[:3], **info)
    s.enc_keypair = keys
    o = d.call(api, s, 'handshake')
    ctx.check(o.ok, 'the handshake does not work after enc_keypair was set: %s' % o.brief(), key='set-later-' + side, second=repr(o), **info)


def again(ctx, rng, rounds):
    """The same two session objects handshake again on the same connection, with new or the same ephemeral keys, after a
    completed handshake or (both sides) after one that the connection broke."""
    cfg = sess.Cfg(rng)
    link = net.Link(rng, rng.choice([0, 1, 3]))
    ends = {'c': net.AsyncEnd(link, 'c'), 's': net.AsyncEnd(link, 's')}
    c, s = cfg.client(ends['c']), cfg.server(ends['s'])
    for n in range(rounds):
        brk = rng.random() < 0.3
        link = net.Link(rng, rng.choice([0, 1, 3]))
        ends['c'].link = ends['s'].link = link
        if rng.random() < 0.7:
            cfg.cenc, cfg.senc = gen.keys(rng, 'enc'), gen.keys(rng, 'enc')
        if n and not cfg.want and rng.random() < 0.4:
            # another server answers; the client asked for no particular one
            cfg.ssig = gen.keys(rng, 'sig')
            s = cfg.server(ends['s'])
            ctx.ev('other_server')
        if n and rng.random() < 0.2:
            # the client asks for a particular server from now on, or no longer does
            cfg.want = not cfg.want
            c.wanted_server_sig_key = cfg.ssig[1] if cfg.want else None
        if brk:
            at = rng.randrange(0, 2)
            victim = rng.choice('cs')

            def cut(i, raw, link=link, at=at):
                if i == at:
                    link.close('c')
                    link.close('s')
                    return []
                return [raw]
            link.filter = {victim: cut}
        for x, k in ((c, cfg.cenc), (s, cfg.senc)):
            x.enc_keypair = type(x.enc_keypair)(sec=k[0], pub=k[1])
        ping, pong = gen.message(rng, 300), gen.message(rng, 300)
        # messages that the session ends before they are read, in a batch that was begun
        leave = rng.random() < 0.5
        handshake_sent = []

        async def client():
            await c.handshake()
            handshake_sent.append(len(link.sent['c']))
            await c.app_channel.write(ping)
            if leave:
                await c.app_channel.write(b'never', b'read', b'in this session')
            return await c.app_channel.read()

        async def server():
            await s.handshake()
            got = await s.app_channel.read()
            await s.app_channel.write(pong)
            if leave:
                await s.app_channel.read()
            return got
        res = net.run_async({'c': client, 's': server})
        ctx.case(('again', n, cfg.key(), brk, tuple(link.trace)))
        if brk:
            ctx.ev('broken_before')
            continue
        ctx.ev('handshakes_again', int(n > 0))
        info = dict(round=n, options=cfg.options(), outcome={k: repr(v) for k, v in res.items()})
        for side in 'cs':
            if not res[side].ok:
                return ctx.violation('honest handshake of used session objects: %s %s' % (side, res[side].brief()), key='again-%s' % side, **info)
        ctx.ev('left_unread', int(leave))
        ctx.check(handshake_sent == [1 if cfg.buf4 else 2], 'M4 of a further handshake is not sent when the client is set to send it',
                  key='again-m4', handshake_sent=handshake_sent, **info)
        m1 = link.sent['c'][0][0]
        ctx.check(len(m1) == (74 if cfg.want else 42), 'M1 of a further handshake does not ask for the server that is wanted now', key='again-m1', m1=m1, **info)
        bad = sess.agreed(cfg, c, s)
        ctx.check(not bad, 'peers do not agree after a further handshake: %s' % bad, key='again-agree-%s' % bad, **info)
        ctx.check(bytes(res['s'].value) == ping and bytes(res['c'].value) == pong, 'application data is not delivered after a further handshake',
                  key='again-echo', **info)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(600):
        for i in range(ctx.scale(6000, 60000)):
            one(ctx, rng, 'async')
        for i in range(ctx.scale(600, 8000)):
            one(ctx, rng, 'sync')
        for i in range(ctx.scale(150, 2000)):
            again(ctx, rng, rng.randrange(2, 6))
        with net.Driver() as d:
            for i in range(ctx.scale(20, 300)):
                for side in 'cs':
                    for api in ('sync', 'async'):
                        unset(ctx, rng, d, side, api)
