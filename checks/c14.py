"""C14 A1/A2 discovery answers every address correctly."""
import saltchannel.util as util
from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.exceptions import BadPeer, ComException

from vlib import gen, hostile, net, ref, sess
from checks.c13 import variants

PROP = 'C14'
BOOST = 5
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'server_answers': 3000, 'answers_no_such': 500, 'answers_default': 500, 'answers_configured': 500, 'client_deliveries': 3000,
           'counts_covered': 128, 'malformed_answers': 5000, 'wellformed_answers': 500, 'end_to_end': 300, 'bit_neighbours': 256}
RULE = ('one evaluation = one A1/A2 exchange (real server with a crafted A1, real client with a crafted answer, or both real); distinct = distinct '
        '(address, key, protocols, answer bytes, API)')


def prots(rng, n):
    return [(hostile.prot(rng), hostile.prot(rng)) for _ in range(n)]


def make_a2(rng, pl):
    """An A2Packet with that protocol list, built in the documented ways."""
    r = rng.random()
    if r < 0.3:
        return A2Packet(src_buf=ref.a2(pl))
    a2 = A2Packet()
    a2.data.Count = len(pl)
    a2.create_opt_fields(prot_count=len(pl))
    for i, (p, q) in enumerate(pl):
        a2.Prot[i].P1 = util.cbytes(p)
        a2.Prot[i].P2 = util.cbytes(q)
    return a2


def make_a1(addr):
    a1 = A1Packet()
    if addr is not None:
        a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
        a1.data.AddressSize = len(addr)
        a1.create_opt_fields()
        a1.Address = addr
    return a1


def expected(pub, addr, pl):
    if addr is not None and addr != pub:
        return ref.A2_NO_SUCH, 'no_such'
    if pl is not None:
        return ref.a2(pl), 'configured'
    return ref.a2([ref.ANY_PROT]), 'default'


def server_state(ctx, s, o, info):
    if not o.ok:
        return ctx.violation('server did not return after A1: %s' % o.brief(), key='server-' + o.brief(), outcome=repr(o), **info)
    ctx.check(s.is_done is True, 'is_done is not True after A1', key='is_done', **info)
    ctx.check(getattr(s, 'app_channel', None) is None, 'there is an application channel after A1', key='app_channel', **info)


def server(ctx, rng, d, addr_of, pl, label):
    cfg = sess.Cfg(rng)
    addr = addr_of(cfg.ssig[1])
    api = rng.choice(['sync', 'async'])
    ch = net.ScriptEnd(None, [ref.a1(0, b'') if addr is None else ref.a1(1, addr)])
    s = cfg.server(ch)
    s.a2 = None if pl is None else make_a2(rng, pl)
    want, kind = expected(cfg.ssig[1], addr, pl)
    if pl is None and rng.random() < 0.2:
        # the answer depends on session.a2 only, not on what other sessions were given
        other = cfg.server(net.ScriptEnd(None))
        other.a2 = make_a2(rng, prots(rng, 3))
    o = d.call(api, s, 'handshake')
    info = dict(label=label, api=api, address=addr or b'', pub=cfg.ssig[1], nprots=None if pl is None else len(pl))
    ctx.ev('server_answers')
    ctx.ev('answers_' + kind)
    ctx.case(('server', api, addr, cfg.ssig[1], tuple(pl or ()), pl is None))
    ctx.state(('server', api, kind, label, None if pl is None else len(pl)))
    server_state(ctx, s, o, info)
    ctx.check(ch.sent == [want], 'answer to A1 is not exactly the expected A2', key='answer-' + kind, sent=ch.sent[:3], want=want, **info)
    ctx.check([bool(x[1]) for x in ch.calls] == [True], 'the channel is not told that A2 is the last message', key='answer-last', calls=ch.calls[:3], **info)
    if pl is not None:
        # the configured A2 can serve further sessions
        ch2 = net.ScriptEnd(None, [ref.a1(0, b'')])
        s2 = cfg.server(ch2)
        s2.a2 = s.a2
        d.call(api, s2, 'handshake')
        ctx.check(ch2.sent == [ref.a2(pl)], 'the configured A2 changed by being used', key='a2-reuse', sent=ch2.sent[:2], **info)


def malformed(ctx, rng, d):
    """A first message that is neither A1 nor M1, or an answer the transport refuses: the session is not done, nothing else is sent."""
    cfg = sess.Cfg(rng)
    api = rng.choice(['sync', 'async'])
    addr = rng.choice([b'', cfg.ssig[1], rng.randbytes(32)])
    good = ref.a1(1 if addr else 0, addr)
    lost = rng.random() < 0.3
    first = good if lost else rng.choice([hostile.mutate(rng, good), good[:rng.randrange(len(good))], good + rng.randbytes(rng.randrange(1, 40)),
                                          bytes([8, 0, rng.choice([0, 1, 2, 255])]) + len(addr).to_bytes(2, 'little') + addr, hostile.raw(rng)]
                                         + ([good + rng.randbytes(65536)] if rng.random() < 0.02 else []))
    for f in ((ref.d_m1,) if lost else (ref.d_m1, ref.d_a1)):
        try:
            f(first)
            return
        except ref.Bad:
            pass

    def peer(raw):
        raise ComException('gone')
    ch = net.ScriptEnd(peer if lost else None, [first])
    s = cfg.server(ch)
    s.a2 = make_a2(rng, prots(rng, rng.randrange(4))) if rng.random() < 0.5 else None
    o = d.call(api, s, 'handshake')
    info = dict(api=api, first=first, lost=lost, outcome=repr(o))
    ctx.ev('malformed_a1')
    ctx.case(('malformed', api, first, lost))
    ctx.check(o.kind == 'exc' and isinstance(o.value, ComException if lost else BadPeer), 'a malformed A1 or a lost answer is not reported: %s' % o.brief(), key='malformed', **info)
    ctx.check(lost or not ch.sent, 'a malformed A1 is answered', key='malformed-answer', sent=ch.sent[:2], **info)
    ctx.check(not s.is_done, 'is_done is set although no A2 was given', key='malformed-done', **info)
    ctx.check(getattr(s, 'app_channel', None) is None, 'there is an application channel after a malformed A1', key='malformed-app', **info)


def prot_list(a2):
    return [(bytes(p.P1), bytes(p.P2)) for p in a2.Prot] if a2.data.Count else []


def client(ctx, rng, d, answer, label):
    addr = None if rng.random() < 0.5 else rng.randbytes(32)
    api = rng.choice(['sync', 'async'])
    ch = net.ScriptEnd(lambda raw: [answer])
    s = A1ClientSession(ch)
    if addr is not None:
        s.a1 = make_a1(addr)
    o = d.call(api, s, 'do_a1a2')
    info = dict(label=label, api=api, answer=answer, outcome=repr(o))
    ctx.case(('client', api, addr, answer))
    ctx.check(ch.sent == [ref.a1(0, b'') if addr is None else ref.a1(1, addr)], 'A1 is not the requested one', key='a1', sent=ch.sent, **info)
    try:
        want = ref.d_a2(answer)
    except ref.Bad as e:
        ctx.ev('malformed_answers')
        ctx.state(('malformed', str(e), api, len(answer)))
        ctx.check(o.kind == 'exc' and isinstance(o.value, BadPeer), 'malformed A2 (%s) was not answered with BadPeer but %s' % (e, o.brief()),
                  key='malformed-%s' % e, **info)
        return
    if want['used'] != len(answer) or want['flags'] & 0x7e:
        return                                    # trailing bytes, reserved bits: not specified
    ctx.ev('wellformed_answers')
    ctx.ev('client_deliveries')
    if not o.ok:
        return ctx.violation('well-formed A2 was refused: %s' % o.brief(), key='refused', **info)
    got = prot_list(s.a2)
    ctx.check(got == want['prots'] and bool(s.a2.data.Header.NoSuchServer) == bool(want['nosuch']) and s.a2.data.Count == want['count'],
              'A2 delivered to the client differs from the one sent', key='delivered', got=[p + q for p, q in got][:4], **info)


def repeated(ctx, rng, d):
    """One A1ClientSession used several times: each exchange stands for itself, an A2 delivered earlier stays as it was."""
    answers = [ref.a2(prots(rng, rng.choice([0, 1, 2, 127]))) if rng.random() < 0.7 else rng.choice([ref.A2_NO_SUCH, hostile.mutate(rng, ref.a2(prots(rng, 2)))])
               for _ in range(rng.randrange(2, 5))]
    todo = list(answers)
    ch = net.ScriptEnd(lambda raw: [todo.pop(0)])
    s = A1ClientSession(ch)
    kept = []
    for k, answer in enumerate(answers):
        addr = None if rng.random() < 0.5 else rng.randbytes(32)
        s.a1 = make_a1(addr) if addr is not None else A1Packet()
        o = d.call(rng.choice(['sync', 'async']), s, 'do_a1a2')
        info = dict(label='repeated', round=k, answers=answers, outcome=repr(o))
        ctx.check(ch.sent[-1] == (ref.a1(0, b'') if addr is None else ref.a1(1, addr)) and len(ch.sent) == k + 1, 'A1 is not the requested one', key='again-a1', **info)
        try:
            want = ref.d_a2(answer)
        except ref.Bad:
            want = None
        if want is None:
            if not ctx.check(o.kind == 'exc' and isinstance(o.value, BadPeer), 'malformed A2 was not answered with BadPeer', key='again-bad', **info):
                return
        elif want['used'] == len(answer) and not want['flags'] & 0x7e:
            if not (o.ok and bytes(s.a2) == answer):
                return ctx.violation('an A1 session used again does not deliver the A2 of this exchange', key='again-a2', **info)
            kept.append((s.a2, answer))
        for a2, raw in kept:
            if bytes(a2) != raw:
                return ctx.violation('an A2 delivered earlier changed', key='again-changed', **info)
    ctx.ev('repeated_exchanges')
    ctx.case(('repeated', tuple(answers)))


def both(ctx, rng, n, addr_of, sync):
    cfg = sess.Cfg(rng)
    addr = addr_of(cfg.ssig[1])
    pl = None if n is None else prots(rng, n)
    link = net.Link(rng, rng.choice([0, 2]))
    made = {}

    def mk(E):
        c = made['c'] = A1ClientSession(E(link, 'c'))
        if addr is not None:
            c.a1 = make_a1(addr)
        return c

    def mks(E):
        s = made['s'] = cfg.server(E(link, 's'))
        if pl is not None:
            s.a2 = make_a2(rng, pl)
        return s
    if sync:
        res = net.run_threads(link, {'c': lambda: mk(net.SyncEnd).do_a1a2_sync(), 's': lambda: mks(net.SyncEnd).handshake_sync()})
    else:
        async def client():
            await mk(net.AsyncEnd).do_a1a2()

        async def serve():
            await mks(net.AsyncEnd).handshake()
        res = net.run_async({'c': client, 's': serve})
    info = dict(sync=sync, n=n, address=addr or b'', pub=cfg.ssig[1])
    ctx.ev('end_to_end')
    ctx.case(('both', sync, n, addr, cfg.ssig[1], link.sent['s'][0][0] if link.sent['s'] else b''))
    server_state(ctx, made['s'], res['s'], info)
    if not res['c'].ok:
        return ctx.violation('do_a1a2 failed: %s' % res['c'].brief(), key='both-' + res['c'].brief(), outcome=repr(res['c']), **info)
    want, kind = expected(cfg.ssig[1], addr, pl)
    w = ref.d_a2(want)
    a2 = made['c'].a2
    ctx.ev('client_deliveries')
    ctx.check(prot_list(a2) == w['prots'] and bool(a2.data.Header.NoSuchServer) == bool(w['nosuch']), 'client got another A2 than the server should send',
              key='both-' + kind, **info)
    ctx.check([m[0] for m in link.sent['s']] == [want], 'server did not send exactly the expected A2', key='both-sent-' + kind, **info)
    ctx.check(all(m[1] for m in link.sent['s']), 'the channel is not told that A2 is the last message', key='both-last', **info)


def run(ctx):
    rng = ctx.rng

    def addresses():
        return rng.choice([lambda p: None, lambda p: p, lambda p: variants(rng, p)])
    with ctx.cpu_guard(2000), net.Driver() as d:
        for n in ctx.share(range(128)):
            for _ in range(ctx.scale(6, 60)):
                pl = prots(rng, n)
                server(ctx, rng, d, addresses(), pl, 'count')
                client(ctx, rng, d, ref.a2(pl), 'count')
                both(ctx, rng, n, addresses(), rng.random() < 0.15)
            ctx.ev('counts_covered')
            # every character, allowed or not, in every position of one of the n entries
            if n:
                for _ in range(ctx.scale(60, 400)):
                    i = rng.randrange(n)
                    j = rng.randrange(20)
                    b = bytearray(ref.a2(pl))
                    b[3 + 20 * i + j] = rng.randrange(256)
                    client(ctx, rng, d, bytes(b), 'char')
        for c in ctx.share(range(256)):
            for pos in range(20):
                b = bytearray(ref.a2([ref.ANY_PROT]))
                b[3 + pos] = c
                client(ctx, rng, d, bytes(b), 'char')
            client(ctx, rng, d, bytes([9, c, 1]) + b'SCv2----------------', 'flags')
            client(ctx, rng, d, bytes([9, c, 0]), 'flags')
            client(ctx, rng, d, bytes([9, 0x80, c]), 'count')
            client(ctx, rng, d, bytes([9, 0x80, c]) + b'-' * (20 * c), 'count')
            client(ctx, rng, d, bytes([9, 0x81, c]) + b'-' * (20 * c), 'count')
            client(ctx, rng, d, bytes([c, 0x80, 1]) + b'-' * 20, 'type')
            for k in range(0, 45):
                client(ctx, rng, d, (bytes([9, 0x80, c % 4]) + b'-' * 50)[:k], 'length')
        for bit in ctx.share(range(256)):
            f = lambda p: bytes(b ^ (1 << bit % 8 if i == bit // 8 else 0) for i, b in enumerate(p))   # noqa: E731
            server(ctx, rng, d, f, rng.choice([None, prots(rng, 1)]), 'bit')
            ctx.ev('bit_neighbours')
        for _ in range(ctx.scale(300, 6000)):
            server(ctx, rng, d, addresses(), None, 'default')
            server(ctx, rng, d, addresses(), prots(rng, rng.randrange(0, 6)), 'few')
            client(ctx, rng, d, hostile.raw(rng), 'hostile')
            repeated(ctx, rng, d)
            malformed(ctx, rng, d)
            client(ctx, rng, d, hostile.mutate(rng, ref.a2(prots(rng, rng.randrange(0, 5)))), 'mutated')
        for _ in range(ctx.scale(30, 300)):
            both(ctx, rng, rng.choice([None, None, 0, 1, 127]), addresses(), rng.random() < 0.5)
