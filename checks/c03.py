"""C03 Delivered application data is always an unmodified prefix of what was sent."""
from saltchannel.exceptions import ComException

from vlib import gen, net, ref, sess

PROP = 'C03'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'forgeries_refused': 2000, 'manipulated_streams': 4000, 'messages_delivered': 10000, 'manipulations_refused': 4000, 'exhaustive_bits': 300}
RULE = ('one evaluation = one packet stream between two real sessions after manipulation by the network, read to its end (also past errors); '
        'distinct = distinct (manipulation, parameters, position, batch shapes, direction)')


def flip(b, bit):
    b = bytearray(b)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


class World:
    """A completed handshake plus recorded genuine packets in both directions, nothing of them delivered yet."""
    def __init__(self, cfg, pair, src, plan, pk, other):
        self.cfg, self.pair, self.src, self.plan, self.pk, self.other = cfg, pair, src, plan, pk, other


async def build(rng, cfg, src, batches, rev):
    """Write batches from src with delivery held back. Returns genuine packets [(raw, [messages])], reverse packets."""
    pair = sess.Pair(cfg, rng)
    await pair.up()
    dst = 's' if src == 'c' else 'c'
    if cfg.buf4:
        await pair.read('s')
    store = {'c': [], 's': []}
    for w in 'cs':
        pair.link.filter[w] = lambda i, raw, w=w: (store[w].append(raw), [])[1]
    packets = []
    for b in batches:
        n0 = len(store[src])
        await pair.write(src, b)
        new = store[src][n0:]
        if len(new) == 1:
            packets.append((new[0], [bytes(m) for m in b]))
        else:
            for raw, m in zip(new, b):
                packets.append((raw, [bytes(m)]))
    for b in rev:
        await pair.write(dst, b)
    return pair, packets, store[dst]


async def feed(ctx, pair, dst, stream, sent, info, must_first=None):
    """Deliver stream (list of raw packets), read everything incl. past errors. Oracle: delivered is a prefix of sent."""
    app = pair.app(dst)
    pair.link.inject(dst, *stream)
    pair.link.close(dst)
    got, errors, reads = [], [], 0
    while reads < len(stream) + sum(len(x) for x in [sent]) + 5:
        reads += 1
        try:
            m = await app.read()
        except net.Cut:
            break
        except ComException as e:
            errors.append(type(e).__name__)
            continue
        except Exception as e:           # wrong exception type is C08's business; here only data counts
            errors.append('!' + type(e).__name__)
            continue
        got.append(bytes(m))
        ctx.ev('messages_delivered')
        if got != sent[:len(got)]:
            ctx.violation('delivered data is not a prefix of the data sent (%s)' % info['op'], key='prefix-%s' % info['op'].split(':')[0],
                          position=len(got) - 1, got=got[-1], errors=errors, **info)
            return got, errors
    return got, errors


OPS = ['flip', 'flip-hdr', 'trunc', 'extend', 'replay', 'swap', 'drop', 'reflect', 'splice', 'plain', 'weak-key', 'merge', 'old-nonce', 'garbage', 'dup-all', 'reverse',
       'twist', 'empty', 'nonce-guess', 'body-swap']


def manipulate(rng, op, packets, rev, foreign, cfg, src):
    """-> (stream, number of genuine packets before the first manipulation, parameters, must_error)"""
    raws = [p[0] for p in packets]
    n = len(raws)
    i = rng.randrange(n)
    s = list(raws)
    key = cfg.session_key
    if op == 'flip':
        bit = rng.choice([rng.randrange(16, 16 + 128), rng.randrange(16, len(s[i]) * 8), rng.randrange(0, 8)])
        s[i] = flip(s[i], bit)
        return s, i, (i, bit), True
    if op == 'flip-hdr':
        bit = rng.randrange(8, 16)
        s[i] = flip(s[i], bit)
        return s, i, (i, bit), False
    if op == 'trunc':
        k = rng.choice([0, 1, 2, 3, 17, 18, 19, len(s[i]) - 1, rng.randrange(len(s[i]))])
        k = min(k, len(s[i]) - 1)
        s[i] = s[i][:k]
        return s, i, (i, k), True
    if op == 'extend':
        x = rng.choice([b'\0', b'\x01', bytes(16), rng.randbytes(5), raws[rng.randrange(n)]])
        s[i] = s[i] + x if rng.random() < 0.7 else s[i][:2] + x + s[i][2:]
        return s, i, (i, len(x)), True
    if op == 'replay':
        j = rng.randrange(n)
        pos = rng.randrange(j + 1, n + 1)
        s[pos:pos] = [raws[j]] * rng.choice([1, 1, 3])
        return s, pos, (j, pos), True
    if op == 'swap':
        if n < 2:
            return None
        i, j = sorted(rng.sample(range(n), 2))
        s[i], s[j] = s[j], s[i]
        return s, i, (i, j), True
    if op == 'drop':
        if i == n - 1:
            del s[i]
            return s, i, (i,), False
        del s[i:i + rng.choice([1, 1, 2])]
        return s, i, (i,), i < len(s)
    if op == 'reflect':
        if not rev:
            return None
        s[i:i] = [rng.choice(rev)]
        return s, i, (i,), True
    if op == 'splice':
        f = rng.choice(foreign)
        if rng.random() < 0.5:
            s[i] = f
        else:
            s[i:i] = [f]
        return s, i, (i,), True
    if op == 'plain':
        m = rng.choice([ref.app(0, b'evil evil evil evil'), ref.enc(ref.app(0, b'evil evil evil evil')), ref.enc(bytes(16) + ref.app(0, b'evil')),
                        ref.multi(0, [b'evil', b'evil2']), ref.enc(ref.multi(0, [b'evil evil', b'evil2']))])
        s[i:i] = [m]
        return s, i, (i,), True
    if op == 'weak-key':
        k = rng.choice([bytes(32), b'\xff' * 32, ref.sha512(b'')[:32], cfg.cenc[1], cfg.senc[1]])
        nv = (1 if src == 'c' else 2) + 2 * (i + 1)
        s[i:i] = [ref.enc(ref.box(ref.app(0, b'evil'), nv, k))]
        return s, i, (i,), True
    if op == 'merge':
        if n < 2:
            return None
        i = rng.randrange(n - 1)
        s[i:i + 2] = [rng.choice([s[i] + s[i + 1], s[i] + s[i + 1][2:], s[i][:2] + s[i][2:] + s[i + 1][2:]])]
        return s, i, (i,), True
    if op == 'old-nonce':
        # genuine ciphertexts under nonces of other positions / other direction (as an insider with the key could not be ordered)
        off = rng.choice([-2, -1, 1, 2, 4, 256, 65536, 1 << 32, 3, 128])
        extra = 1 + (1 if cfg.buf4 and src == 'c' else 0)
        nv = (1 if src == 'c' else 2) + 2 * (i + extra) + off
        if nv < 0:
            return None
        s[i:i] = [ref.enc(ref.box(ref.app(0, b'evil'), nv, key))]
        return s, i, (i, off), True
    if op == 'garbage':
        n = rng.choice([0, 1, 2, 15, 16, 16, 16, 17, 22, 24, 60, rng.randrange(48)])
        body = rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n])
        s[i:i] = [rng.choice([rng.randbytes(rng.choice([0, 1, 2, 17, 18, 40, 200])), bytes([6, rng.choice([0, 0x80, 0x80, 0x01, 0xff, rng.randrange(256)])]) + body])]
        return s, i, (i,), True
    if op == 'dup-all':
        s = [x for r in raws for x in (r, r)]
        return s, 1, (), True
    if op == 'reverse':
        if n < 2:
            return None
        return s[::-1], 0, (), True
    if op == 'twist':
        # several manipulations at once
        for _ in range(rng.randrange(2, 6)):
            j = rng.randrange(len(s))
            r = rng.random()
            if r < 0.3:
                s[j] = flip(s[j], rng.randrange(16, len(s[j]) * 8)) if len(s[j]) > 2 else b''
            elif r < 0.5:
                s.insert(j, rng.choice(raws))
            elif r < 0.7:
                s.insert(j, rng.choice(foreign))
            elif r < 0.85 and len(s) > 1:
                del s[j]
            else:
                k = rng.randrange(len(s))
                s[j], s[k] = s[k], s[j]
        return s, 0, (), False
    if op == 'empty':
        s[i:i] = [b'']
        return s, i, (i,), True
    if op == 'nonce-guess':
        # ciphertext of this session under an all-zero nonce or big-endian counter
        v = (1 if src == 'c' else 2) + 2 * (i + 1 + (1 if cfg.buf4 and src == 'c' else 0))
        nb = rng.choice([bytes(24), v.to_bytes(24, 'big'), v.to_bytes(8, 'big') + bytes(16), bytes(16) + v.to_bytes(8, 'little')])
        s[i:i] = [ref.enc(ref.nb.crypto_box_afternm(ref.app(0, b'evil'), nb, key))]
        return s, i, (i,), True
    if op == 'body-swap':
        if n < 2:
            return None
        i, j = sorted(rng.sample(range(n), 2))
        a, b = s[i], s[j]
        if len(a) < 34 or len(b) < 34:
            return None
        s[i] = a[:18] + b[18:]                # tag of one, body of the other
        return s, i, (i, j), a[18:] != b[18:]
    raise KeyError(op)


def one(ctx, rng, op, src=None, fixed=None):
    cfg = sess.Cfg(rng)
    src = src or rng.choice('cs')
    dst = 's' if src == 'c' else 'c'
    big = rng.random() < 0.12
    batches = fixed or [gen.batch(rng, 12, 70000 if big else 400, 150000 if big else 2000) for _ in range(rng.randrange(1, 7))]
    ctx.ev('large_messages', int(big))
    rev = [gen.batch(rng, 4, 100, 400) for _ in range(rng.randrange(0, 4))]

    async def go():
        pair, packets, rpk = await build(rng, cfg, src, batches, rev)
        ocfg = sess.Cfg(rng)
        ocfg.csig, ocfg.ssig, ocfg.buf4 = cfg.csig, cfg.ssig, cfg.buf4
        ocfg.cenc = ref.enc_keys(rng.randbytes(32))
        _, fpk, frev = await build(rng, ocfg, src, [[b'foreign message %d' % i] for i in range(4)], [[b'foreign reverse']])
        foreign = [p[0] for p in fpk] + list(frev)
        m = manipulate(rng, op, packets, rpk, foreign, cfg, src)
        if m is None:
            return
        stream, clean, params, must = m
        sent = [x for p in packets for x in p[1]]
        before = [x for p in packets[:clean] for x in p[1]]
        info = dict(op='%s:%s' % (op, params), src=src, options=cfg.options(), packets=len(packets), sizes=[len(p[0]) for p in packets][:20])
        got, errors = await feed(ctx, pair, dst, stream, sent, info)
        ctx.case((op, params, src, [len(x) for x in sent], cfg.options()))
        ctx.ev('manipulated_streams')
        ctx.ev('op_' + op)
        ctx.check(got[:len(before)] == before, 'genuine packets before the manipulation were not delivered', key='before-%s' % op, got=got, before=before, errors=errors, **info)
        if must:
            ctx.check(bool(errors), 'a manipulated packet was not reported as an error', key='silent-%s' % op, got=got, **info)
            ctx.ev('manipulations_refused', int(bool(errors)))
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('building the session failed', o.value, op=op, options=cfg.options())
    elif o.kind == 'stuck':
        ctx.violation('session stuck', op=op, options=cfg.options())


def every_bit(ctx, rng, src, size, multi):
    """All bits and all truncations of one packet, each on a fresh session whose receiver has already read one packet."""
    cfg = sess.Cfg(rng)
    dst = 's' if src == 'c' else 'c'
    msgs = [rng.randbytes(size)] if not multi else [rng.randbytes(size), b'', rng.randbytes(3)]
    first = [b'first']

    async def go():
        n = None
        k = 0
        while n is None or k < n:
            if n is not None and not ctx.mine(k):
                k += 1
                continue
            pair, packets, _ = await build(rng, cfg, src, [first, msgs, [b'last']], [])
            raws = [p[0] for p in packets]
            bits = len(raws[1]) * 8
            n = bits + len(raws[1])
            if k < bits:
                if 8 <= k < 16:
                    k += 1
                    continue
                bad = flip(raws[1], k)
            else:
                bad = raws[1][:k - bits]
            sent = [x for p in packets for x in p[1]]
            info = dict(op='every:%d' % k, src=src, options=cfg.options())
            got, errors = await feed(ctx, pair, dst, [raws[0], bad, raws[1], raws[2]], sent, info)
            ctx.case(('every', k, src, size, multi))
            ctx.ev('exhaustive_bits')
            ctx.ev('manipulated_streams')
            ctx.check(bool(errors), 'a changed packet was not refused', key='every', bit=k, got=got, **info)
            ctx.ev('manipulations_refused', int(bool(errors)))
            k += 1
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('building the session failed', o.value)


def long_replay(ctx, rng, src, n):
    """Replay, at distances 2^k and neighbours, of packets of a long session."""
    cfg = sess.Cfg(rng)
    dst = 's' if src == 'c' else 'c'

    async def go():
        pair, packets, _ = await build(rng, cfg, src, [[b'%d' % i] for i in range(n)], [])
        app = pair.app(dst)
        probes = sorted(set(max(0, x) for k in range(2, 17) for x in (2 ** k, 2 ** k - 1, 2 ** k + 1, n - 1) if x < n))
        for i, (raw, ms) in enumerate(packets):
            if i in probes:
                for dist in [2 ** k for k in range(0, 17)] + [2 ** k - 1 for k in range(1, 17)]:
                    if dist <= i and dist >= 1:
                        pair.link.inject(dst, packets[i - dist][0])
                        ctx.ev('long_replays')
                        ctx.case(('long', src, i, dist))
                        try:
                            m = await app.read()
                        except ComException:
                            ctx.ev('manipulations_refused')
                            continue
                        ctx.violation('a packet replayed after %d packets was delivered again' % dist, key='long-replay', at=i, got=m)
                        return
            pair.link.inject(dst, raw)
            m = await app.read()
            ctx.ev('messages_delivered')
            if bytes(m) != ms[0]:
                ctx.violation('wrong data in a long session', key='long-data', at=i, got=m)
                return
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('genuine packet refused in a long session', o.value, key='long-exc', src=src)


def forged(ctx, rng):
    """Packets made without the key, of every short body length, all header values, at several points of a session (fresh, after a packet with and
    without LastFlag, between the messages of a batch); the next genuine packet is delivered afterwards."""
    grid = [(n, fl, fill) for n in range(0, 42) for fl in (0x00, 0x80, 0x01, 0xff) for fill in ('zero', 'random', 'ones', 'genuine')]
    for n, fl, fill in ctx.share(grid):
        cfg = sess.Cfg(rng)
        src = rng.choice('cs')
        dst = 's' if src == 'c' else 'c'
        state = rng.choice(['fresh', 'after', 'after-last', 'queued'])

        async def go():
            pair, packets, _ = await build(rng, cfg, src, [[b'one'], [b'two', b'three'], [b'four']], [])
            raws = [p[0] for p in packets]
            lastraw = bytes([6, 0x80]) + raws[0][2:]
            pre = {'fresh': [], 'after': raws[:1], 'after-last': [lastraw], 'queued': raws[:2]}[state]
            sent = [b'one', b'two', b'three', b'four']
            reads = {'fresh': 0, 'after': 1, 'after-last': 1, 'queued': 3}[state]
            app = pair.app(dst)
            pair.link.inject(dst, *pre)
            for k in range(reads):
                m = await app.read()
                if bytes(m) != sent[k]:
                    return ctx.violation('genuine message differs', key='forged-genuine', got=m)
            body = {'zero': bytes(n), 'random': rng.randbytes(n), 'ones': b'\xff' * n, 'genuine': raws[2][2:2 + n]}[fill]
            info = dict(body=body, flags=fl, state=state, src=src, options=cfg.options())
            if bytes([6]) + body == bytes([6]) + raws[len(pre)][2:]:
                return
            pair.link.inject(dst, bytes([6, fl]) + body)
            try:
                m = await app.read()
            except net.Cut:
                return ctx.violation('a forged packet was skipped without an error', key='forged-skip', **info)
            except Exception:                          # the type is C08's business
                ctx.ev('forgeries_refused')
            else:
                return ctx.violation('a packet made without the key was delivered', key='forged', got=m, **info)
        for _ in range(ctx.scale(4, 20)):
            state = rng.choice(['fresh', 'after', 'after-last', 'queued'])
            o = sess.run1(go)
            ctx.ev('manipulated_streams')
            ctx.case(('forged', n, fl, fill, state, src))
            if o.kind == 'exc':
                ctx.fail_exc('building the session failed', o.value, key='forged-exc', state=state)
            elif o.kind == 'stuck':
                ctx.violation('a forged packet was skipped without an error', key='forged-skip', state=state, flags=fl, length=n)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500):
        for _ in range(ctx.scale(45, 700)):
            for op in OPS:
                one(ctx, rng, op)
        forged(ctx, rng)
        for src in 'cs':
            every_bit(ctx, rng, src, 9, False)
            every_bit(ctx, rng, src, 5, True)
            if ctx.thorough:
                every_bit(ctx, rng, src, 60, False)
        if ctx.only(2):
            long_replay(ctx, rng, 'c', ctx.scale(34000, 140000))
        if ctx.only(5):
            long_replay(ctx, rng, 's', ctx.scale(34000, 140000))
