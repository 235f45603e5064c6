"""C07 Packet parsing is total, rejects malformed input and is faithful."""
from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.exceptions import BadPeer
from saltchannel.v2 import packets
import saltchannel.util as util

from vlib import gen, hostile, ref

PROP = 'C07'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'parses': 100000, 'accepted': 10000, 'rejected': 10000, 'built': 5000, 'fields_compared': 30000, 'exhaustive_truncations': 500, 'type_bytes': 2000}
RULE = ('one evaluation = one byte string given to one packet class, outcome and fields compared with the independent decoder, or one packet built from '
        'fields and compared with the independent encoder; distinct = distinct (class, input)')

CLS = {'M1': packets.M1Packet, 'M2': packets.M2Packet, 'M3': packets.M3Packet, 'M4': packets.M4Packet, 'ENC': packets.EncryptedPacket,
       'APP': packets.AppPacket, 'MULTI': packets.MultiAppPacket, 'A1': A1Packet, 'A2': A2Packet}


def fields(name, p):
    """Observable fields of a parsed packet, in the vocabulary of the reference decoder."""
    if name == 'M1':
        return dict(inc=p.data.Header.ServerSigKeyIncluded, time=p.data.Time, enc=bytes(p.ClientEncKey), wanted=bytes(p.ServerSigKey))
    if name == 'M2':
        return dict(nosuch=p.data.Header.NoSuchServer, time=p.data.Time, enc=bytes(p.ServerEncKey))
    if name == 'M3':
        return dict(time=p.data.Time, sigkey=bytes(p.ServerSigKey), sig=bytes(p.Signature1))
    if name == 'M4':
        return dict(time=p.data.Time, sigkey=bytes(p.ClientSigKey), sig=bytes(p.Signature2))
    if name == 'ENC':
        return dict(last=p.data.Header.LastFlag, body=bytes(p.Body))
    if name == 'APP':
        return dict(time=p.data.Time, data=bytes(p.Data))
    if name == 'MULTI':
        return dict(time=p.data.Time, count=p.data.Count, msgs=[bytes(m) for m in p.opt.Message])
    if name == 'A1':
        return dict(atype=p.data.AddressType, size=p.data.AddressSize, addr=bytes(p.Address))
    return dict(nosuch=p.data.Header.NoSuchServer, count=p.data.Count, prots=[(bytes(x.P1), bytes(x.P2)) for x in p.Prot])


def strict(name, d):
    """No reserved bit set (so that the packet is beyond doubt well-formed)."""
    f = d['flags']
    allowed = {'M1': 0x01, 'M2': 0x81, 'M3': 0, 'M4': 0, 'ENC': 0x80, 'APP': 0, 'MULTI': 0, 'A1': 0, 'A2': 0x81}[name]
    return not f & ~allowed & 0xff


def parse(ctx, name, raw, how='ctor', old=None):
    ctx.ev('parses')
    try:
        want = ref.DECODERS[name](raw)
    except ref.Bad as e:
        want, why = None, str(e)
    try:
        if how == 'ctor':
            p = CLS[name](src_buf=raw)
        else:
            p = old if old is not None else CLS[name]()
            p.from_bytes(raw)
    except BadPeer:
        ctx.ev('rejected')
        if want is not None and want['used'] == len(raw) and strict(name, want):
            ctx.violation('well-formed %s rejected' % name, key='reject-' + name, raw=raw, how=how)
        return None
    except Exception as e:
        ctx.fail_exc('parsing %s raised something else than BadPeer' % name, e, key='exc-%s-%s' % (name, type(e).__name__), raw=raw, how=how)
        return None
    if want is None:
        ctx.violation('malformed %s accepted (%s)' % (name, why), key='accept-%s-%s' % (name, why), raw=raw, how=how, length=len(raw))
        return p
    ctx.ev('accepted')
    try:
        got = fields(name, p)
        out = bytes(p)
    except Exception as e:
        ctx.fail_exc('reading fields of a parsed %s failed' % name, e, key='fields-' + name, raw=raw, how=how)
        return p
    for k, v in got.items():
        ctx.ev('fields_compared')
        w = want[k]
        if v != w:
            ctx.violation('%s: field %s differs from the input' % (name, k), key='field-%s-%s' % (name, k), raw=raw, got=v, want=w, how=how)
            return p
    exp = raw[:want['used']]
    if name == 'M2' and want['nosuch']:
        exp = exp[:1] + bytes([exp[1] | 0x80]) + exp[2:]
    if out != exp:
        ctx.violation('%s: bytes() differs from the input it was parsed from' % name, key='bytes-' + name, raw=raw, out=out, how=how)
    return p


def build(ctx, rng, name):
    """Packet from fields -> bytes must be the reference encoding, and parse back."""
    t = gen.times(rng) if rng.random() < 0.8 else rng.randrange(2 ** 32)
    k, k2, sig = hostile.key32(rng), hostile.key32(rng), rng.randbytes(64)
    p = CLS[name]()
    if name == 'M1':
        w = rng.random() < 0.5
        p.data.Header.ServerSigKeyIncluded = int(w)
        p.create_opt_fields()
        if w:
            p.ServerSigKey = k2
        p.data.Time = t
        p.ClientEncKey = k
        want = ref.m1(t, k, k2 if w else None)
    elif name == 'M2':
        ns = rng.random() < 0.3
        p.data.Time = t
        p.ServerEncKey = k
        p.data.Header.NoSuchServer = int(ns)
        want = ref.m2(t, k, flags=0x81 if ns else 0)
    elif name in ('M3', 'M4'):
        p.data.Time = t
        if name == 'M3':
            p.ServerSigKey, p.Signature1 = k, sig
        else:
            p.ClientSigKey, p.Signature2 = k, sig
        want = (ref.m3 if name == 'M3' else ref.m4)(t, k, sig)
    elif name == 'ENC':
        body = gen.fill(rng, 16 + gen.size(rng, 3000))
        last = rng.random() < 0.5
        p.data.Header.LastFlag = int(last)
        p.Body = body
        want = ref.enc(body, last)
    elif name == 'APP':
        m = gen.message(rng, 70000)
        p.data.Time = t
        p.Data = gen.typed(rng, m)
        want = ref.app(t, m)
    elif name == 'MULTI':
        msgs = gen.batch(rng, 300, rng.choice([20, 300, 65535]), 80000)
        msgs = [m[:65535] for m in msgs]
        p.data.Time = t
        p.data.Count = len(msgs)
        p.create_opt_fields(msgs=msgs)
        want = ref.multi(t, msgs)
    elif name == 'A1':
        if rng.random() < 0.7:
            p.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
            p.data.AddressSize = 32
            p.Address = k
            want = ref.a1(1, k)
        else:
            want = ref.a1(0, b'')
    else:
        r = rng.random()
        if r < 0.15:
            p = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
            want = ref.A2_NO_SUCH
        elif r < 0.3:
            p = A2Packet(case=A2Packet.Case.A2_DEFAUT)
            want = ref.a2([ref.ANY_PROT])
        else:
            pr = [(hostile.prot(rng), hostile.prot(rng)) for _ in range(rng.choice([1, 2, 3, 10, 126, 127]))]
            p.data.Count = len(pr)
            p.create_opt_fields(prot_count=len(pr))
            for i, (a, b) in enumerate(pr):
                p.Prot[i].P1 = util.cbytes(a)
                p.Prot[i].P2 = util.cbytes(b)
            want = ref.a2(pr)
    ctx.ev('built')
    out = bytes(p)
    if out != want:
        ctx.violation('%s built from fields has wrong bytes' % name, key='build-' + name, out=out, want=want)
    if p.size != len(want):
        ctx.violation('%s.size is %d for %d bytes' % (name, p.size, len(want)), key='size-' + name)
    parse(ctx, name, want)
    ctx.case(('build', name, want[:80].hex(), len(want)))


def should_use(ctx, rng):
    msgs = gen.batch(rng, 300, 70000, 150000)
    want = 2 <= len(msgs) and all(len(m) <= 65535 for m in msgs)
    ctx.check(bool(packets.MultiAppPacket.should_use(msgs)) == want, 'MultiAppPacket.should_use is wrong', key='should_use', n=len(msgs), longest=max(len(m) for m in msgs))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1200):
        names = hostile.NAMES
        # structured sweep: all truncations, all values of each early byte, all extensions of a valid packet
        for name in names:
            for _ in range(ctx.scale(1, 4)):
                v = hostile.valid(rng, name)
                for _ in range(20):
                    if len(v) <= 400:
                        break
                    v = hostile.valid(rng, name)
                for k in ctx.share(range(len(v) + 1)):
                    ctx.ev('exhaustive_truncations')
                    ctx.case((name, 'trunc', k, v.hex()[:200]))
                    parse(ctx, name, v[:k])
                for pos in ctx.share(range(min(len(v), 12))):
                    for b in range(256):
                        ctx.ev('type_bytes')
                        ctx.case((name, 'byte', pos, b, v.hex()[:200]))
                        parse(ctx, name, v[:pos] + bytes([b]) + v[pos + 1:])
                for k in ctx.share([1, 2, 3, 16, 19, 20, 21, 32, 100]):
                    parse(ctx, name, v + rng.randbytes(k))
        # every A2 character in every position class
        for c in ctx.share(range(256)):
            for pos in (0, 5, 9, 10, 14, 19):
                pr = bytearray(b'SCv2------ECHO------')
                pr[pos] = c
                parse(ctx, 'A2', ref.a2([(bytes(pr[:10]), bytes(pr[10:]))]))
                parse(ctx, 'A2', ref.a2([ref.ANY_PROT, (bytes(pr[:10]), bytes(pr[10:]))]))
                ctx.case(('A2', 'char', c, pos))
        for n in ctx.share(range(0, 140)):
            body = b''.join(hostile.prot(rng) + hostile.prot(rng) for _ in range(n))
            for cnt in {n, n + 1, max(0, n - 1), 255, 128, 127}:
                for fl in (0x80, 0x81, 0, 1):
                    parse(ctx, 'A2', bytes([9, fl, cnt % 256]) + body)
            ctx.case(('A2', 'count', n))
        # sizes that are right only modulo the width of the size field
        for k in (65536, 131072, 65536 + 32):
            for atype in (0, 1):
                for size in (k % 65536, 0, 32, 65535):
                    parse(ctx, 'A1', bytes([8, 0, atype]) + size.to_bytes(2, 'little') + rng.randbytes(k))
        for n in (128, 129, 255, 256, 257, 512):
            for cnt in (n % 256, n % 128, 0, 1, 127):
                parse(ctx, 'A2', bytes([9, 0x80, cnt]) + b''.join(ref.ANY_PROT) * n)
        # every consistent and inconsistent A1 address size
        for n in ctx.share(list(range(0, 80)) + [127, 128, 255, 256, 1000, 32767, 32768, 65534, 65535]):
            for atype in (0, 1, 2, 3, 127, 128, 254, 255):
                addr = rng.randbytes(n)
                parse(ctx, 'A1', ref.a1(atype, addr))
                for size in {n + 1, max(0, n - 1), 0, 32, 256 + n, 0xffff}:
                    parse(ctx, 'A1', bytes([8, 0, atype]) + (size % 65536).to_bytes(2, 'little') + addr)
            ctx.ev('a1_sizes')
            ctx.case(('A1', 'size', n))
        # MultiApp: each length and the count off by a little
        for _ in range(ctx.scale(40, 1000)):
            msgs = [gen.fill(rng, rng.choice([0, 1, 2, 3, 5, 255, 256, 300])) for _ in range(rng.randrange(1, 6))]
            v = ref.multi(gen.times(rng), msgs)
            for d in (-1, 1, -2, 2, 256, -256):
                n = len(msgs) + d
                if 0 <= n < 65536:
                    parse(ctx, 'MULTI', v[:6] + n.to_bytes(2, 'little') + v[8:])
            pos = 8
            for m in msgs:
                for d in (-1, 1, -2, 2, 256, -256, 65535 - len(m)):
                    n = len(m) + d
                    if 0 <= n < 65536:
                        parse(ctx, 'MULTI', v[:pos] + n.to_bytes(2, 'little') + v[pos + 2:])
                pos += 2 + len(m)
            for cut in {0, 1, 2, 3, len(msgs[-1]), len(msgs[-1]) + 1, len(msgs[-1]) + 2}:
                parse(ctx, 'MULTI', v[:len(v) - cut])
            ctx.ev('multi_off_by_some')
            ctx.case(('MULTI', 'off', v[:100].hex()))
        # random inputs, fresh and reused packet objects
        reused = {n: CLS[n]() for n in names}
        for i in range(ctx.scale(12000, 300000)):
            raw = hostile.raw(rng)
            name = rng.choice(names) if rng.random() < 0.4 else guess(rng, raw)
            parse(ctx, name, raw)
            if rng.random() < 0.3:
                parse(ctx, name, raw, 'reused', reused[name])
            ctx.case((name, raw[:100].hex(), len(raw)))
        for i in range(ctx.scale(300, 8000)):
            for name in names:
                raw = hostile.valid(rng, name)
                parse(ctx, name, raw)
                parse(ctx, name, raw, 'reused', reused[name])
                build(ctx, rng, name)
                ctx.case((name, raw[:100].hex(), len(raw)))
            should_use(ctx, rng)


def guess(rng, raw):
    if raw[:2] == b'SC':
        return 'M1'
    m = {2: 'M2', 3: 'M3', 4: 'M4', 5: 'APP', 6: 'ENC', 8: 'A1', 9: 'A2', 11: 'MULTI'}
    return m.get(raw[0] if raw else 0, rng.choice(hostile.NAMES))
