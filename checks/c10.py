"""C10 Nothing secret and no identity is visible on the wire."""
from vlib import gen, net, ref, sess

PROP = 'C10'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'sessions': 800, 'wire_messages_scanned': 10000, 'markers_scanned': 10000, 'identity_scans': 2000, 'repeated_messages': 1000}
RULE = ('one evaluation = one session (honest, or broken off by an attacker) of which every byte given to the transport was scanned and every packet opened '
        'with the session key; distinct = distinct (options, traffic shape, outcome)')


def windows(marker, n=12):
    return {bytes(marker[i:i + n]) for i in range(0, len(marker) - n + 1)}


def scan(ctx, blob, secrets, info):
    for name, value in secrets:
        for form, v in (('', value), ('reversed ', value[::-1]), ('hex ', value.hex().encode())):
            ctx.ev('identity_scans')
            if v in blob or v[:16] in blob or v[-16:] in blob:
                ctx.violation('%s%s is visible on the wire' % (form, name), key='leak-' + name, **info)
                return False
    return True


def one(ctx, rng, attack=None, special=None):
    cfg = sess.Cfg(rng)
    # only unpredictable keys, so that finding one in a byte stream is not a coincidence
    cfg.csig, cfg.ssig = ref.sig_keys(rng.randbytes(32)), ref.sig_keys(rng.randbytes(32))
    cfg.cenc, cfg.senc = ref.enc_keys(rng.randbytes(32)), ref.enc_keys(rng.randbytes(32))
    sess.random_times(cfg, rng)
    pair = sess.Pair(cfg, rng, rng.choice([0, 2]))
    data = []
    shape = []
    repeated = rng.randbytes(rng.choice([0, 0, 1, 2, 3, 10, 24, 24, 24]))

    async def go():
        if attack:
            side, idx = attack
            pair.link.filter[side] = lambda i, raw: [raw[:-1] + bytes([raw[-1] ^ 1])] if i == idx else [raw]
        first = None
        if cfg.buf4 or rng.random() < 0.3:
            first = [rng.randbytes(rng.choice([16, 20, 64, 300]))]
            data.extend(first)
        await pair.up(first=first)
        for j in range(rng.randrange(1, 8) if special is None else len(special)):
            side = rng.choice('cs')
            if special is not None:
                b = [rng.randbytes(n) for n in special[j]]
                ctx.ev('special_messages', len(b))
            elif rng.random() < 0.3:
                b = [repeated] * rng.choice([1, 1, 2, 5])
                ctx.ev('repeated_messages', len(b))
            else:
                b = [rng.randbytes(rng.choice([12, 16, 17, 31, 64, 100, 1000, 5000])) for _ in range(rng.choice([1, 1, 2, 3, 9]))]
                if rng.random() < 0.1:
                    b.append(rng.randbytes(66000))
            data.extend(b)
            shape.append((side, [len(m) for m in b]))
            await pair.write(side, b, is_last=rng.choice([None, True, False]))
    o = sess.run1(go)
    info = dict(options=cfg.options(), attack=attack, shape=shape[:10], outcome=repr(o))
    if attack is None and not o.ok:
        ctx.violation('session failed: %s' % o.brief(), key='session-' + o.brief(), **info)
        return
    ctx.ev('sessions')
    sent = {w: pair.raw(w) for w in 'cs'}
    blob = b'|'.join(sent['c'] + sent['s'])
    ctx.ev('wire_messages_scanned', len(sent['c']) + len(sent['s']))
    secrets = [('client signing secret', cfg.csig[0][:32]), ('server signing secret', cfg.ssig[0][:32]), ('client ephemeral secret', cfg.cenc[0]),
               ('server ephemeral secret', cfg.senc[0]), ('session key', cfg.session_key), ('client identity', cfg.csig[1])]
    m1 = sent['c'][0] if sent['c'] else b''
    rest = blob
    if cfg.want:
        # the only place where an identity may show
        if m1[42:74] != cfg.ssig[1]:
            ctx.violation('M1 does not name the wanted server', key='m1-wanted', **info)
        rest = b'|'.join([m1[:42]] + sent['c'][1:] + sent['s'])
    scan(ctx, blob, secrets, info)
    scan(ctx, rest, [('server identity', cfg.ssig[1])], info)
    for m in data:
        ctx.ev('markers_scanned')
        probe = [m[:12], m[-12:], m[len(m) // 2:len(m) // 2 + 12]]
        if len(m) > 100000:
            probe += [m[k:k + 12] for k in range(65536, len(m) - 12, 65536)]
        if any(len(p) == 12 and p in blob for p in probe):
            ctx.violation('application data is visible on the wire', key='leak-data', marker=m, **info)
            break
    if len(set(blob_ for w in 'cs' for blob_ in sent[w][1:])) != sum(len(sent[w][1:]) for w in 'cs'):
        ctx.violation('two encrypted packets are identical', key='identical', **info)
    bodies = [p[2:34] for w in 'cs' for p in sent[w][1:] if len(p) >= 34]
    if len(set(bodies)) != len(bodies):
        ctx.violation('two encrypted packets start with the same 32 bytes', key='identical-prefix', **info)
    if attack is None:
        # every byte is accounted for: M1 / M2 fields or authenticated ciphertext, reserved bits zero
        for who in 'cs':
            w = sess.decode(cfg, sent[who], who)
            if w.problem:
                ctx.violation('unaccounted bytes on the wire: %s' % w.problem, key='wire-' + who, **info)
    ctx.case((cfg.options(), shape, attack))


def refused(ctx, d, rng):
    """Servers and clients that refuse a peer must not reveal anything either."""
    cfg = sess.Cfg(rng, plain=True)
    cfg.csig, cfg.ssig = ref.sig_keys(rng.randbytes(32)), ref.sig_keys(rng.randbytes(32))
    cfg.cenc, cfg.senc = ref.enc_keys(rng.randbytes(32)), ref.enc_keys(rng.randbytes(32))
    kind = rng.choice(['nosuch', 'badm1', 'a1', 'client-badm3', 'client-nosuch', 'badm4'])
    api = rng.choice(['sync', 'async'])
    sig_sec = [('server signing secret', cfg.ssig[0][:32]), ('server ephemeral secret', cfg.senc[0]), ('client signing secret', cfg.csig[0][:32]),
               ('client ephemeral secret', cfg.cenc[0]), ('server identity', cfg.ssig[1]), ('client identity', cfg.csig[1])]
    if kind.startswith('client'):
        srv = ref.RefServer(ref.sig_keys(rng.randbytes(32)), cfg.senc)

        def peer(raw):
            if raw[:4] != b'SCv2':
                return []
            srv.on_m1(raw)
            if kind == 'client-nosuch':
                return [ref.M2_NO_SUCH(0)]
            return [srv.hello(), srv.sec.seal(rng.randbytes(102))]
        ch = net.ScriptEnd(peer)
        o = d.call(api, cfg.client(ch), 'handshake')
    else:
        first = {'nosuch': ref.m1(0, cfg.cenc[1], rng.randbytes(32)), 'badm1': rng.randbytes(42), 'a1': ref.a1(1, rng.randbytes(32)),
                 'badm4': ref.m1(0, cfg.cenc[1])}[kind]
        ch = net.ScriptEnd(None, [first, rng.randbytes(120)])
        o = d.call(api, cfg.server(ch), 'handshake')
    ctx.ev('refusals')
    info = dict(kind=kind, outcome=repr(o))
    scan(ctx, b'|'.join(ch.sent), sig_sec, info)
    if kind in ('nosuch', 'badm1', 'a1') and any(cfg.senc[1] in m for m in ch.sent):
        ctx.violation('ephemeral key revealed in a refusal', key='refusal-key', **info)
    ctx.case(('refused', kind, api, cfg.key()))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900):
        for _ in range(ctx.scale(1000, 12000)):
            one(ctx, rng)
        # long sessions, large batches, huge messages
        for sp in ctx.share([[[1100000]], [[20], [2500000], [20]], [[5000000, 30]], [[16]] * 400, [[13] * 300, [40]], [[12] * 3000], [[65535] * 20, [65536] * 3], [[30, 40]] * 150]
                            + [[[1 << k], [(1 << k) + 1]] for k in range(12, 21)]):
            one(ctx, rng, special=sp)
        for _ in range(ctx.scale(150, 1500)):
            one(ctx, rng, (rng.choice('cs'), rng.randrange(6)))
    with ctx.cpu_guard(600), net.Driver() as d:
        for _ in range(ctx.scale(250, 2500)):
            refused(ctx, d, rng)
