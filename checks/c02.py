"""C02 No attacker can get a handshake accepted for an identity it does not own."""
import copy
from vlib import gen, net, ref, sess

PROP = 'C02'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'attacks_on_client': 3000, 'attacks_on_server': 3000, 'relay_attacks': 2000, 'controls_accepted': 300, 'rejections_observed': 5000, 'attacks_on_used_sessions': 1000}
RULE = ('one evaluation = one handshake of a real session against an attacker (crafted messages with valid encryption, or a relay between two '
        'real sessions that manipulates messages); distinct = distinct (attack, parameters, options)')

L25519 = 2 ** 252 + 27742317777372353535851937790883648493
SMALL = [bytes(32), b'\x01' + bytes(31), bytes.fromhex('ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
         bytes.fromhex('26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05'),
         bytes.fromhex('c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a'),
         bytes.fromhex('0100000000000000000000000000000000000000000000000000000000000080'),
         bytes.fromhex('edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f')]


def flip(b, bit):
    b = bytearray(b)
    b[bit // 8] ^= 1 << (bit % 8)
    return bytes(b)


def bad_signed(rng, prefix, h1, h2, raw1, raw2):
    """What an honest owner of the identity key may have signed elsewhere - but not this handshake."""
    other = ref.sha512(rng.randbytes(42))
    p_other = ref.SIG2 if prefix == ref.SIG1 else ref.SIG1
    e = ref.sha512(b'')
    return [('other-prefix', p_other + h1 + h2), ('no-prefix', h1 + h2), ('swapped', prefix + h2 + h1), ('m1-only', prefix + h1),
            ('m2-only', prefix + h2), ('m1-twice', prefix + h1 + h1), ('m2-twice', prefix + h2 + h2), ('zero-hashes', prefix + bytes(128)),
            ('empty-hashes', prefix + e + e), ('empty-m1', prefix + e + h2), ('empty-m2', prefix + h1 + e), ('prefix-only', prefix), ('nothing', b''),
            ('other-m1', prefix + other + h2), ('other-m2', prefix + h1 + other), ('raw', prefix + raw1 + raw2), ('trunc-hash', prefix + h1[:32] + h2[:32]),
            ('trunc-tail', prefix + h1 + h2[:32]), ('prefix-case', prefix.lower() + h1 + h2), ('prefix-00', b'SC-SIG00' + h1 + h2),
            ('suffix', prefix + h1 + h2 + b'\x00'), ('m1-as-m2', prefix + h2 + h2), ('sha256', prefix + h1[::-1] + h2[::-1])]


def forge_list(rng, kind, cfg, victim, attacker, raw1, raw2):
    """[(name, cleartext of a bogus M3/M4, extra)] - none of them proves ownership of the key it claims"""
    prefix, enc = (ref.SIG1, ref.m3) if kind == 'm3' else (ref.SIG2, ref.m4)
    time = rng.choice([0, 0, 1, 2, 255, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])

    def mk(t, key, sig, **kw):
        return enc(time, key, sig, **kw)
    h1, h2 = ref.sha512(raw1), ref.sha512(raw2)
    good = prefix + h1 + h2
    vs, vp = victim
    as_, ap = attacker
    true_sig = ref.sign(good, vs)
    out = []
    out.append(('wrong-signer', mk(0, vp, ref.sign(good, as_))))
    out.append(('wrong-claimed-key', mk(0, ap, true_sig)))
    for n, m in bad_signed(rng, prefix, h1, h2, raw1, raw2):
        out.append(('signed-' + n, mk(0, vp, ref.sign(m, vs))))
    out.append(('zero-sig', mk(0, vp, bytes(64))))
    out.append(('ff-sig', mk(0, vp, b'\xff' * 64)))
    out.append(('sig-halves-swapped', mk(0, vp, true_sig[32:] + true_sig[:32])))
    out.append(('zero-R', mk(0, vp, bytes(32) + true_sig[32:])))
    out.append(('zero-S', mk(0, vp, true_sig[:32] + bytes(32))))
    s = int.from_bytes(true_sig[32:], 'little') + L25519
    if s < 2 ** 256:
        out.append(('malleable-S', mk(0, vp, true_sig[:32] + s.to_bytes(32, 'little'))))
    for i, p in enumerate(SMALL):
        for r in (p, b'\x01' + bytes(31)):
            out.append(('small-order-%d' % i, mk(0, p, r + bytes(32))))
    out.append(('key-zero', mk(0, bytes(32), true_sig)))
    for typ in (1, 2, 3, 4, 5, 6, 11, 0, 255):
        if typ != (3 if kind == 'm3' else 4):
            out.append(('type-%d' % typ, mk(0, vp, true_sig, typ=typ)))
    g = mk(0, vp, true_sig)
    for cut in (0, 1, 2, 6, 37, 38, 39, 70, 101):
        out.append(('cut-%d' % cut, g[:cut]))
    if kind == 'm3':
        out.append(('tail', g + rng.randbytes(rng.choice([1, 2, 64, 102]))))
        out.append(('twice', g + g))
    out.append(('sig-bit', mk(0, vp, flip(true_sig, rng.randrange(512)))))
    out.append(('key-bit', mk(0, flip(vp, rng.randrange(256)), true_sig)))
    # other direction's message of the same honest identity
    omk, oprefix = (ref.m4, ref.SIG2) if kind == 'm3' else (ref.m3, ref.SIG1)
    out.append(('other-role-message', omk(0, vp, ref.sign(oprefix + h1 + h2, vs))))
    out.append(('other-role-signature', mk(0, vp, ref.sign(oprefix + h1 + h2, vs))))
    # the attacker claims to be the verifier itself
    own = cfg.csig if kind == 'm3' else cfg.ssig
    if own[1] != vp:
        out.append(('own-key-zero-sig', mk(0, own[1], bytes(64))))
        out.append(('own-key-victim-sig', mk(0, own[1], true_sig)))
        out.append(('own-key-attacker-sig', mk(0, own[1], ref.sign(good, as_))))
        out.append(('own-key-own-other-role-sig', mk(0, own[1], ref.sign(oprefix + h1 + h2, own[0]))))
        out.append(('own-key-own-old-sig', mk(0, own[1], ref.sign(prefix + h1 + ref.sha512(rng.randbytes(38)), own[0]))))
    return out, g


def again(rng, which, cfg, ch, s, role, d):
    """Sometimes the session object attacked has made one or two handshakes before: a successful or a failed one."""
    if which == 'control' or rng.random() > 0.25:
        return None
    peer, inbox = ch.peer, list(ch.inbox)
    done = []
    for _ in range(rng.choice([1, 1, 2])):
        fail = rng.random() < 0.3
        ch.inbox.clear()
        if role == 'c':
            e = ref.RefServer(cfg.ssig, cfg.senc if rng.random() < 0.5 else ref.enc_keys(rng.randbytes(32)))

            def p(raw, e=e, n=[0]):
                n[0] += 1
                if n[0] > 1:
                    return []
                e.on_m1(raw)
                return [e.hello()] if fail else [e.hello(), e.m3()]
        else:
            e = ref.RefClient(cfg.csig, cfg.cenc if rng.random() < 0.5 else ref.enc_keys(rng.randbytes(32)))
            ch.inbox.append(e.hello())

            def p(raw, e=e, n=[0]):
                n[0] += 1
                if n[0] == 1:
                    e.on_m2(raw)
                    return []
                if n[0] > 2 or fail:
                    return []
                e.on_m3(raw)
                return [e.m4()]
        ch.peer = p
        o = d.call(rng.choice(['sync', 'async']), s, 'handshake')
        done.append(o.ok)
    ch.peer = peer
    ch.inbox.clear()
    ch.inbox.extend(inbox)
    return done


def warm(ctx, d, rng, attack, cfg, which):
    """Sometimes an honest handshake of the same parties (same identities, some of the same ephemeral keys) has succeeded before in this process."""
    if which == 'control' or rng.random() > 0.3:
        return
    for _ in range(rng.choice([1, 1, 2])):
        o = copy.copy(cfg)
        if rng.random() < 0.6:
            o.senc = gen.keys(rng, 'enc')
        if rng.random() < 0.3:
            o.cenc = gen.keys(rng, 'enc')
        if rng.random() < 0.2:
            o.ssig = gen.keys(rng, 'sig')
        attack(ctx, d, rng, 'control', cfg=o)
        ctx.ev('warm_attacks')


def attack_client(ctx, d, rng, which=None, bit=None, cfg=None):
    if cfg is None:
        cfg = sess.Cfg(rng)
        if cfg.want:
            cfg.want = rng.random() < 0.5
        warm(ctx, d, rng, attack_client, cfg, which)
    attacker = ref.sig_keys(rng.randbytes(32))
    if which == 'bit':
        cfg.want = False
    srv = ref.RefServer(cfg.ssig, cfg.senc)
    st = {}

    def peer(raw):
        if 'm1' in st:
            return []
        st['m1'] = raw
        srv.on_m1(raw)
        m2 = srv.hello()
        forged, good = forge_list(rng, 'm3', cfg, cfg.ssig, attacker, raw, m2)
        if which == 'control':
            st['name'] = 'control'
            return [m2, srv.m3()]
        if which == 'bit':
            st['name'] = 'm3-bit-%d' % bit
            return [m2, srv.sec.seal(flip(good, bit), rng.random() < 0.2)]
        if which == 'replay':
            st['name'] = 'replayed session'
            return list(st['old'])
        if which == 'envelope':
            r = rng.randrange(9)
            st['name'] = 'envelope-%d' % r
            k = srv.key
            c = good
            if r == 0:
                return [m2, ref.enc(ref.box(c, rng.choice([0, 1, 3, 4, 6, 2 + (1 << 16), 2 + (1 << 32), 2 ** 40]), k))]
            if r == 1:
                return [m2, ref.enc(ref.box(c, 2, rng.randbytes(32)))]
            if r == 2:
                return [m2, c]                                              # M3 in clear
            if r == 3:
                return [m2, ref.enc(bytes(16) + c)]                         # not encrypted
            if r == 4:
                return [m2, ref.enc(ref.box(c, 2, k), typ=rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 11, 255]))]
            if r == 5:
                b = ref.box(c, 2, k)
                return [m2, ref.enc(flip(b, rng.randrange(8 * len(b))))]
            if r == 6:
                b = ref.box(c, 2, k)
                return [m2, ref.enc(rng.choice([b[:-1], b[1:], b + b'\0', b'\0' + b, b[:16], b'', b[16:]]))]
            if r == 7:
                return [m2, ref.enc(ref.box(c, 2, bytes(32)))]              # all-zero key
            return [m2, ref.enc(ref.nb.crypto_box_afternm(c, bytes(24), k))]
        if which == 'm2-flags':
            st['name'] = 'm2 changed after signing'
            bad = flip(m2, rng.choice([8 + i for i in range(8)] + list(range(16, 304))))
            return [bad, srv.m3()]
        if which == 'm2-tail':
            st['name'] = 'm2 extended after signing'
            return [m2 + rng.randbytes(rng.choice([1, 2, 32])), srv.m3()]
        n, c = forged[which % len(forged)]
        st['name'] = n
        return [m2, srv.sec.seal(c, rng.random() < 0.2)]

    if which == 'replay':
        o = sess.Cfg(rng, plain=True)
        o.ssig, o.cenc = cfg.ssig, ref.enc_keys(rng.randbytes(32))
        if rng.random() < 0.5:
            o.senc = cfg.senc
        oc, os_ = ref.RefClient(o.csig, o.cenc), ref.RefServer(o.ssig, o.senc)
        os_.on_m1(oc.hello())
        st['old'] = [os_.hello(), os_.m3()]
    ch = net.ScriptEnd(peer)
    c = cfg.client(ch)
    before = again(rng, which, cfg, ch, c, 'c', d)
    if before:
        ctx.ev('attacks_on_used_sessions', int(any(before)))
    api = rng.choice(['sync', 'async'])
    o = d.call(api, c, 'handshake')
    name = st.get('name', '?')
    ctx.case(('client', name, bit, cfg.options(), api), nontrivial=True)
    if which == 'control':
        ctx.ev('controls_accepted', int(o.ok))
        return ctx.check(o.ok, 'honest server rejected by client', key='control-client', outcome=repr(o), options=cfg.options())
    ctx.ev('attacks_on_client')
    if not o.ok:
        ctx.ev('rejections_observed')
    ctx.check(not o.ok, 'client accepted a forged handshake: %s' % name, key='client-%s' % name.split('-bit-')[0], options=cfg.options(), api=api, before=before,
              m1=st.get('m1', b''))


def attack_server(ctx, d, rng, which=None, bit=None, cfg=None):
    if cfg is None:
        cfg = sess.Cfg(rng)
        warm(ctx, d, rng, attack_server, cfg, which)
    attacker = ref.sig_keys(rng.randbytes(32))
    cl = ref.RefClient(cfg.csig, cfg.cenc, cfg.ssig[1] if cfg.want else None)
    st = {'n': 0}
    m1 = cl.hello(rng.choice([0, 1]))

    def peer(raw):
        st['n'] += 1
        if st['n'] == 1:
            cl.on_m2(raw)
            return []
        if st['n'] != 2:
            return []
        cl.on_m3(raw)
        forged, good = forge_list(rng, 'm4', cfg, cfg.csig, attacker, cl.m1, cl.m2)
        if which == 'control':
            st['name'] = 'control'
            return [cl.m4()]
        if which == 'bit':
            st['name'] = 'm4-bit-%d' % bit
            return [cl.sec.seal(flip(good, bit), rng.random() < 0.2)]
        if which == 'reflect':
            st['name'] = 'own M3 reflected'
            return [raw]
        if which == 'm3-as-m4':
            st['name'] = 'server M3 re-encrypted'
            c = ref.unbox(raw[2:], 2, cl.key)
            return [cl.sec.seal(rng.choice([c, b'\x04' + c[1:]]), rng.random() < 0.2)]
        if which == 'replay':
            st['name'] = 'M4 of another session'
            return [rng.choice([st['old_m4'], cl.sec.seal(st['old_clear'], rng.random() < 0.2)])]
        if which == 'envelope':
            r = rng.randrange(8)
            st['name'] = 'envelope-%d' % r
            k, c = cl.key, good
            if r == 0:
                return [ref.enc(ref.box(c, rng.choice([0, 2, 3, 4, 5, 1 + (1 << 16), 1 + (1 << 32), 2 ** 40]), k))]
            if r == 1:
                return [ref.enc(ref.box(c, 1, rng.randbytes(32)))]
            if r == 2:
                return [c]
            if r == 3:
                return [ref.enc(bytes(16) + c)]
            if r == 4:
                return [ref.enc(ref.box(c, 1, k), typ=rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 11, 255]))]
            if r == 5:
                b = ref.box(c, 1, k)
                return [ref.enc(flip(b, rng.randrange(8 * len(b))))]
            if r == 6:
                b = ref.box(c, 1, k)
                return [ref.enc(rng.choice([b[:-1], b[1:], b + b'\0', b'\0' + b, b[:16], b'', b[16:]]))]
            return [ref.enc(ref.box(c, 1, bytes(32)))]
        if which == 'appdata':
            st['name'] = 'application data instead of M4'
            return [cl.sec.seal(ref.app(0, rng.randbytes(rng.choice([0, 10, 96, 97, 200]))))]
        n, c = forged[which % len(forged)]
        st['name'] = n
        return [cl.sec.seal(c, rng.random() < 0.2)]

    if which == 'replay':
        o = sess.Cfg(rng, plain=True)
        o.csig, o.senc = cfg.csig, ref.enc_keys(rng.randbytes(32))
        if rng.random() < 0.5:
            o.cenc = cfg.cenc
        oc, os_ = ref.RefClient(o.csig, o.cenc), ref.RefServer(o.ssig, o.senc)
        os_.on_m1(oc.hello())
        oc.on_m2(os_.hello())
        oc.on_m3(os_.m3())
        st['old_m4'] = oc.m4()
        st['old_clear'] = ref.unbox(st['old_m4'][2:], 1, oc.key)
    first = m1
    if which == 'm1-changed':
        # the server gets another M1 than the one the client signs
        first = flip(m1, rng.choice([41 * 8 + 7] + list(range(10 * 8, len(m1) * 8)) + [42 + i for i in range(6)]))
        st['name'] = 'M1 changed'
    if which == 'm1-tail':
        first = m1 + rng.randbytes(rng.choice([1, 32]))
        st['name'] = 'M1 extended'
    ch = net.ScriptEnd(None, [first])
    if which in ('m1-changed', 'm1-tail'):
        def peer(raw):                                                      # noqa: F811
            st['n'] += 1
            if st['n'] == 1:
                cl.on_m2(raw)
                return [cl.m4()]
            return []
    ch.peer = peer
    s = cfg.server(ch)
    before = again(rng, which, cfg, ch, s, 's', d)
    if before:
        ctx.ev('attacks_on_used_sessions', int(any(before)))
    api = rng.choice(['sync', 'async'])
    o = d.call(api, s, 'handshake')
    name = st.get('name', '?')
    ctx.case(('server', name, bit, cfg.options(), api))
    if which == 'control':
        ctx.ev('controls_accepted', int(o.ok))
        return ctx.check(o.ok, 'honest client rejected by server', key='control-server', outcome=repr(o), options=cfg.options())
    ctx.ev('attacks_on_server')
    if not o.ok:
        ctx.ev('rejections_observed')
    ctx.check(not o.ok, 'server accepted a forged handshake: %s' % name, key='server-%s' % name.split('-bit-')[0], options=cfg.options(), api=api, before=before)


def relay(ctx, rng, side, index, action, arg):
    """A man in the middle between two real sessions changes message `index` of `side`."""
    cfg = sess.Cfg(rng)
    cfg.want = cfg.want if rng.random() < 0.5 else False
    link = net.Link(rng, rng.choice([0, 1, 3]))
    seen = {'c': [], 's': []}          # what each side actually received
    hist = []
    evil = ref.enc_keys(rng.randbytes(32))
    changed = [False]

    def mk(who):
        def f(i, raw):
            out = [raw]
            if who == side and i == index:
                if action == 'flip':
                    out = [flip(raw, arg % (8 * len(raw)))]
                elif action == 'drop':
                    out = []
                elif action == 'cut':
                    out = []
                    link.close('c')
                    link.close('s')
                elif action == 'dup':
                    out = [raw, raw]
                elif action == 'trunc':
                    out = [raw[:arg % len(raw)]]
                elif action == 'extend':
                    out = [raw + rng.randbytes(1 + arg % 40)]
                elif action == 'replace-old' and hist:
                    out = [hist[arg % len(hist)]]
                elif action == 'random':
                    out = [rng.randbytes(len(raw))]
                elif action == 'key' and i == 0:
                    p = 10 if who == 'c' else 6
                    out = [raw[:p] + evil[1] + raw[p + 32:]]
                elif action == 'zero-key' and i == 0:
                    p = 10 if who == 'c' else 6
                    out = [raw[:p] + rng.choice([bytes(32), b'\x01' + bytes(31)]) + raw[p + 32:]]
                elif action == 'reflect':
                    link.inject(who, raw)
                    out = []
                changed[0] = out != [raw]
            hist.append(raw)
            seen['s' if who == 'c' else 'c'].extend(out)
            return out
        return f
    link.filter = {'c': mk('c'), 's': mk('s')}
    made = {}

    async def client():
        c = made['c'] = cfg.client(net.AsyncEnd(link, 'c'))
        await c.handshake()
        made['c_ok'] = True
        await c.app_channel.write(b'hi')

    async def server():
        s = made['s'] = cfg.server(net.AsyncEnd(link, 's'))
        await s.handshake()
        made['s_ok'] = not (s.is_done and seen['s'][0][:1] == b'\x08')       # an A1 makes the server answer and return; that is no handshake
    res = net.run_async({'c': client, 's': server})
    ctx.case(('relay', side, index, action, arg, cfg.options()), nontrivial=changed[0])
    ctx.ev('relay_attacks')
    info = dict(side=side, index=index, action=action, arg=arg, options=cfg.options(), outcome={k: repr(v) for k, v in res.items()})
    sent_c, sent_s = [m[0] for m in link.sent['c']], [m[0] for m in link.sent['s']]
    # oracle: success only with identical views of M1 and M2
    same = bool(seen['s'] and seen['c'] and seen['s'][:1] == sent_c[:1] and seen['c'][:1] == sent_s[:1])
    for who in ('c', 's'):
        if made.get(who + '_ok'):
            ctx.ev('relay_accepted')
            if not same:
                ctx.violation('%s completed although M1 or M2 was changed' % who, key='relay-%s-%s-%d' % (who, side, index), **info)
                return
            got, genuine = (seen['c'], sent_s) if who == 'c' else (seen['s'], sent_c)
            if [m[2:] for m in got[1:2]] != [m[2:] for m in genuine[1:2]] or not got[1:2]:
                ctx.violation('%s completed without the genuine %s' % (who, 'M3' if who == 'c' else 'M4'), key='relay-without-%s' % who, **info)
                return
    # the encrypted body of M3 / M4
    if action == 'flip' and index == 1 and arg % (8 * 120) >= 16:
        victim = 'c' if side == 's' else 's'
        ctx.ev('body_flips')
        ctx.check(not made.get(victim + '_ok'), 'changed bit in M3/M4 accepted', key='relay-body', **info)
    if made.get('c_ok'):
        ctx.check(sess.raw(getattr(made['c'].m3, 'ServerSigKey', None)) == cfg.ssig[1], 'client accepted another identity', key='relay-id-c', **info)
    if made.get('s_ok'):
        ctx.check(sess.raw(made['s'].client_sig_key) == cfg.csig[1], 'server accepted another identity', key='relay-id-s', **info)
    if not made.get('c_ok') or not made.get('s_ok'):
        ctx.ev('rejections_observed')


def mitm_two_faced(ctx, d, rng):
    """Attacker terminates both sides with its own ephemeral keys and forwards the honest parties' M3/M4 contents."""
    cfg = sess.Cfg(rng, plain=True)
    e1, e2 = ref.enc_keys(rng.randbytes(32)), ref.enc_keys(rng.randbytes(32))
    if rng.random() < 0.5:
        e2 = e1
    link_c, link_s = net.Link(), net.Link()
    made = {}

    async def client():
        c = made['c'] = cfg.client(net.AsyncEnd(link_c, 'c'))
        await c.handshake()
        made['c_ok'] = True

    async def server():
        s = made['s'] = cfg.server(net.AsyncEnd(link_s, 's'))
        await s.handshake()
        made['s_ok'] = True

    async def attacker():
        a_c, a_s = net.AsyncEnd(link_c, 's'), net.AsyncEnd(link_s, 'c')
        m1 = await a_c.read()
        m1x = m1[:10] + e1[1] + m1[42:]
        await a_s.write(m1x)
        m2 = await a_s.read()
        m3 = await a_s.read()
        ks = ref.shared(e1[0], m2[6:38])
        kc = ref.shared(e2[0], m1[10:42])
        clear3 = ref.unbox(m3[2:], 2, ks)
        m2x = m2[:6] + e2[1]
        await a_c.write(m2x)
        await a_c.write(ref.enc(ref.box(clear3, 2, kc)))
        link_c.close('s')
        try:
            m4 = await a_c.read()
            clear4 = ref.unbox(m4[2:], 1, kc)
        except net.Cut:
            # the client refused; use a signature it made for someone else
            clear4 = ref.m4(0, cfg.csig[1], ref.sign(ref.SIG2 + ref.sha512(m1) + ref.sha512(m2x), cfg.csig[0]))
        await a_s.write(ref.enc(ref.box(clear4, 1, ks)))
    net.run_async({'c': client, 's': server, 'a': attacker})
    ctx.case(('two-faced', cfg.key()))
    ctx.ev('two_faced')
    ctx.check(not made.get('c_ok'), 'client accepted a man in the middle', key='mitm-client')
    ctx.check(not made.get('s_ok'), 'server accepted a man in the middle', key='mitm-server')
    ctx.ev('rejections_observed', 2)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900), net.Driver() as d:
        reps = ctx.scale(6, 40)
        for _ in range(reps):
            for w in range(76):
                attack_client(ctx, d, rng, w)
                attack_server(ctx, d, rng, w)
            for bit in ctx.share(range(102 * 8)):
                if not 8 <= bit < 48:        # reserved byte and Time are not signed (but encrypted)
                    attack_client(ctx, d, rng, 'bit', bit)
                    attack_server(ctx, d, rng, 'bit', bit)
            for _ in range(20):
                for w in ('control', 'replay', 'envelope', 'envelope', 'm2-flags', 'm2-tail'):
                    attack_client(ctx, d, rng, w)
                for w in ('control', 'replay', 'envelope', 'envelope', 'reflect', 'm3-as-m4', 'appdata', 'm1-changed', 'm1-tail'):
                    attack_server(ctx, d, rng, w)
    with ctx.cpu_guard(1800):
        for _ in range(ctx.scale(3, 12)):
            # every bit of every handshake message
            for side, index, nbits in (('c', 0, 592), ('s', 0, 304), ('s', 1, 960), ('c', 1, 960)):
                for bit in ctx.share(range(nbits)):
                    relay(ctx, rng, side, index, 'flip', bit)
            for _ in range(ctx.scale(60, 600)):
                relay(ctx, rng, rng.choice('cs'), rng.randrange(3), rng.choice(
                    ['drop', 'cut', 'cut', 'dup', 'trunc', 'extend', 'replace-old', 'random', 'key', 'zero-key', 'reflect', 'flip']), rng.randrange(10000))
            for _ in range(ctx.scale(10, 100)):
                mitm_two_faced(ctx, None, rng)
