"""C11 LastFlag is set, transmitted and reported exactly as requested."""
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role

from vlib import gen, net, ref, sess

PROP = 'C11'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'one_party_writes': 3000, 'api_sync': 1000, 'api_async': 500, 'writes_checked': 5000, 'last_true_seen': 1000, 'packets_checked': 5000, 'last_reads_checked': 5000, 'transport_flags_checked': 5000}
RULE = ('one evaluation = one session script with arbitrary is_last arguments; every packet header, every is_last given to the transport and every value of '
        '.last after a read was compared with the model; distinct = distinct (script, options)')


def script(ctx, rng, steps, label):
    cfg = sess.Cfg(rng)
    info = dict(label=label, options=cfg.options(), steps=[(s, [len(m) for m in b][:10], l) for s, b, l in steps][:12])

    async def go():
        pair = sess.Pair(cfg, rng, rng.choice([0, 0, 2]))
        first, todo = None, steps
        if cfg.buf4:
            i = next((i for i, st in enumerate(steps) if st[0] == 'c'), None)
            first = ([b'first'], None)
            if i is not None:
                first, todo = steps[i][1:], steps[:i] + steps[i + 1:]
            kw = {} if first[1] is None else {'is_last': first[1]}
            await pair.up(first=[gen.typed(rng, m) for m in first[0]], **kw)
        else:
            await pair.up()
        # handshake packets never carry LastFlag (M2 only with NoSuchServer)
        for w in 'cs':
            for raw, il, _ in pair.link.sent[w][:2]:
                if raw[:1] == b'\x06' and raw[1] & 0x80 or (w == 's' and raw[:1] == b'\x02' and raw[1] & 0x80):
                    ctx.violation('LastFlag set on a handshake packet', key='handshake', **info)
                    return
        reads = []

        async def verify(side, b, last, base):
            new = pair.link.sent[side][base:]
            want_last = bool(last)
            ctx.ev('writes_checked')
            for i, (raw, il, call) in enumerate(new):
                ctx.ev('packets_checked')
                want = want_last and i == len(new) - 1
                if bool(raw[1] & 0x80) != want:
                    ctx.violation('LastFlag %s on packet %d of %d (is_last=%s)' % ('set' if not want else 'missing', i + 1, len(new), last),
                                  key='flag-%s' % want, shape=[len(m) for m in b][:10], side=side, **info)
                    return False
            ctx.ev('transport_flags_checked')
            # the transport is told is_last with the write that completes the data, and not before
            flags = {}
            for raw, il, call in new:
                flags[call] = bool(il)
            order = sorted(flags)
            if order and ([flags[c] for c in order][-1] != want_last or any(flags[c] for c in order[:-1])):
                ctx.violation('is_last=%s was not passed to the transport' % last, key='transport', side=side, **info)
                return False
            if want_last:
                ctx.ev('last_true_seen')
            to = 's' if side == 'c' else 'c'
            reads.append((to, len(b), len(new), want_last))
            return True

        async def consume(k=None):
            n = 0
            while reads and (k is None or n < k):
                to, nmsg, npkt, lastf = reads.pop(0)
                n += 1
                for i in range(nmsg):
                    await pair.app(to).read()
                    ctx.ev('last_reads_checked')
                    final = i == nmsg - 1
                    v = bool(pair.app(to).last)
                    if final and v != lastf:
                        ctx.violation('.last is %s after reading a write with is_last=%s' % (v, lastf), key='report-%s' % lastf, nmsg=nmsg, npkt=npkt, side=to, **info)
                        return False
                    if not final and v != (lastf and npkt == 1):
                        ctx.violation('.last is %s while a batch is being read' % v, key='report-early', nmsg=nmsg, npkt=npkt, side=to, **info)
                        return False
            return True

        if first is not None:
            ctx.ev('buffered_first')
            # the first client write follows M4 in the same transport write
            if not await verify('c', first[0], first[1], 2):
                return
        for side in 'cs':
            if bool(pair.app(side).last):
                ctx.violation('.last is True before anything was read', key='initial', **info)
                return
        for side, b, last in todo:
            base = len(pair.link.sent[side])
            kw = {} if last is None else {'is_last': last}
            await pair.app(side).write(*[gen.typed(rng, m) for m in b], **kw)
            if not await verify(side, b, last, base):
                return
            if rng.random() < 0.5:
                if not await consume(rng.randrange(1, 3)):
                    return
        await consume()
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('script failed', o.value, **info)
    elif o.kind == 'stuck':
        ctx.violation('script stuck', key='stuck', **info)
    ctx.case((label, [(s, [len(m) for m in b], l) for s, b, l in steps], cfg.options()))


def one_party(ctx, d, rng):
    """One real party against an independent peer through the sync or the async API: flags on the wire, at the transport and after reads."""
    cfg = sess.Cfg(rng)
    api = rng.choice(['sync', 'sync', 'async'])
    role = rng.choice(['client', 'server', 'bare'])
    ch = net.ScriptEnd()
    info = dict(role=role, api=api, options=cfg.options())
    if role == 'client':
        peer = ref.RefServer(cfg.ssig, cfg.senc)

        def on(raw):
            if len(ch.sent) > 1:
                return []
            peer.on_m1(raw)
            return [peer.hello(0), peer.m3(0)]
        ch.peer = on
        s = cfg.client(ch)
    elif role == 'server':
        peer = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
        ch.inbox.append(peer.hello(0))

        def on(raw):
            if raw[:1] != b'\x02':
                return []
            peer.on_m2(raw)
            return [peer.m4(0)]
        ch.peer = on
        s = cfg.server(ch)
    if role == 'bare':
        key = rng.randbytes(32)
        app = EncryptedChannelV2(ch, key, rng.choice([Role.CLIENT, Role.SERVER]))
    else:
        o = d.call(api, s, 'handshake')
        if not o.ok:
            return ctx.fail_exc('handshake failed', o.value, key='one-handshake', **info)
        app = s.app_channel
        ch.peer = None
    for _ in range(rng.randrange(1, 6)):
        if role != 'bare' and rng.random() < 0.4:
            last = rng.random() < 0.5
            b = [gen.fill(rng, rng.choice([0, 1, 30])) for _ in range(rng.choice([1, 1, 2]))]
            ch.inbox.append(peer.sec.seal(ref.app(0, b[0]) if len(b) == 1 else ref.multi(0, b), last))
            for i, m in enumerate(b):
                o = d.call(api, app, 'read')
                ctx.ev('last_reads_checked')
                if not o.ok or bool(app.last) != last:
                    return ctx.violation('.last is not the LastFlag of the packet read', key='one-report', last=last, outcome=repr(o), **info)
            continue
        b = gen.batch(rng, 12, rng.choice([30, 300, 70000]), 75000)
        last = rng.choice([None, False, True, True])
        base, calls = len(ch.sent), len(ch.calls)
        kw = {} if last is None else {'is_last': last}
        held = role == 'client' and cfg.buf4 and base == 1
        o = d.call(api, app, 'write', *[gen.typed(rng, m) for m in b], **kw)
        if not o.ok:
            return ctx.violation('write failed', key='one-write', outcome=repr(o), **info)
        ctx.ev('writes_checked')
        ctx.ev('one_party_writes')
        ctx.ev('api_' + api)
        new, nc = ch.sent[base:], ch.calls[calls:]
        ctx.ev('packets_checked', len(new))
        flags = [bool(raw[1] & 0x80) for raw in new]
        if flags != [False] * (len(new) - 1) + [bool(last)]:
            return ctx.violation('LastFlag of the packets of a write with is_last=%s: %s' % (last, flags), key='one-flag', held=held, **info)
        ctx.ev('transport_flags_checked')
        if [bool(x[1]) for x in nc] != [False] * (len(nc) - 1) + [bool(last)]:
            return ctx.violation('is_last=%s was not passed to the transport' % last, key='one-transport', calls=nc, held=held, **info)
        if last:
            ctx.ev('last_true_seen')
    ctx.case(('one', role, api, cfg.options(), ch.sent[-1][:40] if ch.sent else b''))


def nosuch(ctx, d, rng):
    """A NoSuchServer answer and an A2 are last messages: LastFlag and is_last."""
    cfg = sess.Cfg(rng, plain=True)
    api = rng.choice(['sync', 'async'])
    for first in (ref.m1(0, cfg.cenc[1], rng.randbytes(32)), ref.a1(0, b''), ref.a1(1, rng.randbytes(32))):
        ch = net.ScriptEnd(None, [first])
        d.call(api, cfg.server(ch), 'handshake')
        ok = len(ch.sent) == 1 and ch.sent[0][1] & 0x80 and ch.calls == [(1, True)]
        ctx.ev('final_answers')
        ctx.check(ok, 'final answer of the server is not marked last', key='answer-%d' % first[0], sent=ch.sent, calls=ch.calls)
    ctx.case(('answer', api, cfg.key()))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900):
        for _ in range(ctx.scale(300, 6000)):
            steps = []
            for _ in range(rng.randrange(1, 12)):
                steps.append((rng.choice('cs'), gen.batch(rng, 30, rng.choice([30, 300, 70000]), 75000), rng.choice([None, False, True, True, 0, 1])))
            script(ctx, rng, steps, 'random')
        pts = [('size', n) for n in gen.sizes(70000)] + [('count', n) for n in gen.counts(300)] + [('count', 65536), ('size', (1 << 20) + 1), ('size', (1 << 22) + 7)]
        for kind, n in ctx.share(pts):
            side = rng.choice('cs')
            b = [gen.fill(rng, n)] if kind == 'size' else [b'%d' % i for i in range(n)]
            big = [b'x', gen.fill(rng, n), b'y'] if kind == 'size' else b
            steps = [(side, b, False), (side, b, True), (side, big, True), (side, b, None)]
            script(ctx, rng, steps[1:2] if n == 65536 and kind == 'count' else steps, '%s %d' % (kind, n))
    with ctx.cpu_guard(600), net.Driver() as d:
        for _ in range(ctx.scale(40, 400)):
            nosuch(ctx, d, rng)
        for _ in range(ctx.scale(400, 8000)):
            one_party(ctx, d, rng)
