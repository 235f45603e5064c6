"""C27 Packets built from their fields have the prescribed bytes, whatever was done to the object before."""
import threading

from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.exceptions import BadPeer
from saltchannel.v2 import packets
import saltchannel.util as util

from vlib import gen, hostile, ref

PROP = 'C27'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'built': 30000, 'rebuilt': 8000, 'after_parse': 4000, 'after_failed_parse': 1000, 'sizes_checked': 30000, 'independence': 4000, 'threads': 8, 'repeat_bytes': 30000, 'contradictions': 4000}
RULE = ('one evaluation = one packet object taken through a history of field assignments, parses (also failing ones) and serialisations, its bytes, size and fields compared '
        'with the independent encoder after every step; distinct = distinct (class, history, bytes)')

CLS = {'M1': packets.M1Packet, 'M2': packets.M2Packet, 'M3': packets.M3Packet, 'M4': packets.M4Packet, 'ENC': packets.EncryptedPacket,
       'APP': packets.AppPacket, 'MULTI': packets.MultiAppPacket, 'A1': A1Packet, 'A2': A2Packet}


def assign(rng, name, p):
    """Set all fields of p -> the bytes it has to have"""
    t = gen.times(rng) if rng.random() < 0.8 else rng.randrange(2 ** 32)
    k, k2, sig = hostile.key32(rng), hostile.key32(rng), rng.randbytes(64)
    ty = lambda b: gen.typed(rng, b)   # noqa: E731
    if name == 'M1':
        w = rng.random() < 0.5
        steps = [lambda: setattr(p.data, 'Time', t), lambda: setattr(p, 'ClientEncKey', ty(k))]

        def opt():
            p.data.Header.ServerSigKeyIncluded = int(w)
            p.create_opt_fields()
            if w:
                p.ServerSigKey = ty(k2)
        steps.append(opt)
        want = ref.m1(t, k, k2 if w else None)
    elif name == 'M2':
        ns = rng.random() < 0.3

        def flags():
            p.data.Header.NoSuchServer = int(ns)
            if not ns:
                p.data.Header.LastFlag = 0
        steps = [lambda: setattr(p.data, 'Time', t), lambda: setattr(p, 'ServerEncKey', ty(k)), flags]
        want = ref.m2(t, k, flags=0x81 if ns else 0)
    elif name in ('M3', 'M4'):
        nm = ('ServerSigKey', 'Signature1') if name == 'M3' else ('ClientSigKey', 'Signature2')
        steps = [lambda: setattr(p.data, 'Time', t), lambda: setattr(p, nm[0], ty(k)), lambda: setattr(p, nm[1], ty(sig))]
        want = (ref.m3 if name == 'M3' else ref.m4)(t, k, sig)
    elif name == 'ENC':
        body = gen.fill(rng, 16 + gen.size(rng, 3000))
        last = rng.random() < 0.5
        steps = [lambda: setattr(p.data.Header, 'LastFlag', int(last)), lambda: setattr(p, 'Body', ty(body))]
        want = ref.enc(body, last)
    elif name == 'APP':
        m = gen.message(rng, rng.choice([300, 300, 70000]))
        steps = [lambda: setattr(p.data, 'Time', t), lambda: setattr(p, 'Data', ty(m))]
        want = ref.app(t, m)
    elif name == 'MULTI':
        msgs = [m[:65535] for m in gen.batch(rng, 60, rng.choice([20, 300, 65535]), 80000)]

        def fill():
            p.data.Count = len(msgs)
            p.create_opt_fields(msgs=rng.choice([list, tuple])(msgs))
        steps = [lambda: setattr(p.data, 'Time', t), fill]
        want = ref.multi(t, msgs)
    elif name == 'A1':
        pk = rng.random() < 0.7

        def addr():
            p.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY if pk else A1Packet.ADDRESS_TYPE_ANY
            p.data.AddressSize = 32 if pk else 0
            p.Address = ty(k) if pk else b''
        steps = [addr]
        want = ref.a1(1, k) if pk else ref.a1(0, b'')
    else:
        pr = [(hostile.prot(rng), hostile.prot(rng)) for _ in range(rng.choice([0, 1, 2, 3, 10, 126, 127]))]
        other = rng.random() < 0.3

        def prots():
            p.data.Header.NoSuchServer = 0
            p.data.Header.LastFlag = 1
            p.data.Count = len(pr)
            if other:
                src = A2Packet(src_buf=ref.a2(pr))
                p.Prot = src.Prot
                if pr:
                    src.Prot[0].P1 = util.cbytes(bytes(10))       # a copy: does not change p
                return
            p.create_opt_fields(prot_count=len(pr))
            for i, (a, b) in enumerate(pr):
                p.Prot[i].P1 = util.cbytes(a)
                p.Prot[i].P2 = util.cbytes(b)
        steps = [prots]
        want = ref.a2(pr)
    rng.shuffle(steps)
    for f in steps:
        f()
    return want


def fields_of(name, p):
    if name == 'M1':
        return p.data.Time, p.ClientEncKey, p.ServerSigKey if p.data.Header.ServerSigKeyIncluded else b''
    if name == 'M2':
        return p.data.Time, p.ServerEncKey, p.data.Header.NoSuchServer
    if name == 'M3':
        return p.data.Time, p.ServerSigKey, p.Signature1
    if name == 'M4':
        return p.data.Time, p.ClientSigKey, p.Signature2
    if name == 'ENC':
        return p.data.Header.LastFlag, p.Body
    if name == 'APP':
        return p.data.Time, p.Data
    if name == 'MULTI':
        return p.data.Time, p.data.Count, tuple(bytes(m) for m in p.opt.Message)
    if name == 'A1':
        return p.data.AddressType, p.data.AddressSize, p.Address
    return p.data.Header.NoSuchServer, p.data.Count, tuple((bytes(x.P1), bytes(x.P2)) for x in p.Prot)


def want_fields(name, want):
    d = ref.DECODERS[name](want)
    return {'M1': lambda: (d['time'], d['enc'], d['wanted'] or b''), 'M2': lambda: (d['time'], d['enc'], d['nosuch']),
            'M3': lambda: (d['time'], d['sigkey'], d['sig']), 'M4': lambda: (d['time'], d['sigkey'], d['sig']),
            'ENC': lambda: (int(d['last'] != 0), d['body']), 'APP': lambda: (d['time'], d['data']),
            'MULTI': lambda: (d['time'], d['count'], tuple(bytes(m) for m in d['msgs'])),
            'A1': lambda: (d['atype'], d['size'], d['addr']), 'A2': lambda: (int(d['nosuch'] != 0), d['count'], tuple(d['prots']))}[name]()


def judge(ctx, name, p, want, hist):
    ctx.ev('built')
    info = dict(packet=name, history=hist[-6:])
    for _ in range(2):
        out = bytes(p)
        ctx.ev('repeat_bytes')
        if out != want:
            ctx.violation('%s built from fields has wrong bytes' % name, key='bytes-' + name, out=out, want=want, **info)
            return False
    ctx.ev('sizes_checked')
    if p.size != len(want):
        ctx.violation('%s.size is %d for %d bytes' % (name, p.size, len(want)), key='size-' + name, **info)
        return False
    got, exp = fields_of(name, p), want_fields(name, want)
    if got != exp:
        ctx.violation('%s: fields read back are not those set' % name, key='fields-' + name, got=got, want=exp, **info)
        return False
    try:
        p.validate()
        q = CLS[name](src_buf=want)
    except BadPeer as e:
        ctx.fail_exc('%s: a well-formed packet is refused' % name, e, key='refused-' + name, out=out, **info)
        return False
    if bytes(q) != want:
        ctx.violation('%s: bytes change when parsed and serialised again' % name, key='round-' + name, out=bytes(q), want=want, **info)
        return False
    return True


def history(ctx, rng, name):
    p = CLS[name]()
    hist = []
    want = None
    for step in range(rng.randrange(1, 6)):
        r = rng.random()
        if r < 0.5 or want is None and step:
            if step:
                ctx.ev('rebuilt')
            want = assign(rng, name, p)
            hist.append('assign')
        elif r < 0.75:
            raw = hostile.valid(rng, name)
            try:
                ref_d = ref.DECODERS[name](raw)
            except ref.Bad:
                continue
            if ref_d['flags'] & ~{'M1': 1, 'M2': 0x81, 'ENC': 0x80, 'A2': 0x81}.get(name, 0) or ref_d['used'] != len(raw):
                continue
            try:
                p.from_bytes(raw)
            except BadPeer as e:
                return ctx.fail_exc('%s: a well-formed packet is refused' % name, e, key='parse-' + name, raw=raw)
            if name == 'M2' and raw[1] & 1:
                raw = raw[:1] + bytes([raw[1] | 0x80]) + raw[2:]
            want = raw
            hist.append('parse')
            ctx.ev('after_parse')
        else:
            raw = hostile.mutate(rng, hostile.valid(rng, name))
            try:
                p.from_bytes(raw)
                hist.append('parse-odd')
            except BadPeer:
                hist.append('parse-fails')
                ctx.ev('after_failed_parse')
            # whatever it holds now, new fields replace it (in a packet of the right type)
            p = p if bytes(p)[4 if name == 'M1' else 0] == CLS[name].TYPE and clean(name, p) else CLS[name]()
            want = assign(rng, name, p)
            hist.append('assign')
        if want is not None and not judge(ctx, name, p, want, hist):
            return
    ctx.case((name, tuple(hist), (want or b'')[:80], len(want or b'')))


def copied(ctx, rng):
    """Prot taken from another A2 is copied as it is, whatever bytes it holds."""
    n = rng.choice([1, 1, 2, 5, 127])
    any10 = lambda: rng.choice([bytes(10), b'\xff' * 10, rng.randbytes(10), hostile.prot(rng), b'SCv2------', b'ECHO' + bytes(6), b' ' * 10])   # noqa: E731
    pr = [(any10(), any10()) for _ in range(n)]
    src, p = A2Packet(), A2Packet()
    src.data.Count = p.data.Count = n
    src.create_opt_fields(prot_count=n)
    for i, (a, b) in enumerate(pr):
        src.Prot[i].P1 = util.cbytes(a)
        src.Prot[i].P2 = util.cbytes(b)
    p.Prot = src.Prot
    want = bytes([9, 0x80, n]) + b''.join(a + b for a, b in pr)
    ctx.ev('copied')
    ctx.case(('copied', want))
    ctx.check(bytes(src) == want, 'A2 built element by element has wrong bytes', key='copied-src', out=bytes(src)[:80], want=want[:80])
    ctx.check(bytes(p) == want, 'Prot assigned from another A2 is not the same', key='copied', out=bytes(p)[:80], want=want[:80])


def contradict(ctx, rng):
    """Fields that contradict each other: refused by validate(), never sent as something else."""
    name = rng.choice(['MULTI', 'A1', 'A2', 'M1'])
    p = CLS[name]()
    assign(rng, name, p)
    ctx.ev('contradictions')
    info = dict(packet=name)
    if name == 'M1':
        p.data.Header.ServerSigKeyIncluded = 0
        if rng.random() < 0.5:
            p.create_opt_fields()
        k = rng.randbytes(32)
        try:
            p.ServerSigKey = k
        except AttributeError:
            return
        return ctx.violation('M1: ServerSigKey is accepted without ServerSigKeyIncluded (and lost)', key='lost-key', out=bytes(p), **info)
    if name == 'MULTI':
        n = p.data.Count
        p.data.Count = rng.choice([c for c in (n + 1, n - 1, 0, 1, 256 + n, 65535) if 0 <= c < 65536 and c != n])
        info.update(count=p.data.Count, messages=n)
    elif name == 'A1':
        n = p.data.AddressSize
        p.data.AddressSize = rng.choice([c for c in (0, 1, 31, 32, 33, 256 + n, 65535) if c != n])
        info.update(size=p.data.AddressSize, real=n)
    else:
        n = p.data.Count
        p.data.Count = rng.choice([c for c in (n + 1, n - 1, 0, 127) if 0 <= c < 128 and c != n])
        info.update(count=p.data.Count, prots=n)
    try:
        p.validate()
    except BadPeer:
        return
    ctx.violation('%s: validate() accepts a packet whose count or size contradicts its content' % name, key='contradiction-' + name, **info)


def clean(name, p):
    """No reserved bits or wrong indicator left from what was parsed: there is no public way to reset them."""
    b = bytes(p)
    if name == 'M1':
        return b[:4] == b'SCv2' and not b[5] & ~1
    return not b[1] & ~{'M2': 0x81, 'ENC': 0x80, 'A2': 0x81}.get(name, 0)


def independent(ctx, rng):
    """Packets do not share state: filling one does not change another."""
    ps = []
    for _ in range(rng.randrange(2, 8)):
        name = rng.choice(list(CLS))
        p = CLS[name]()
        ps.append((name, p, assign(rng, name, p)))
    ctx.ev('independence')
    for name, p, want in ps:
        if not judge(ctx, name, p, want, ['others']):
            return
        fresh = CLS[name]()
        if name not in ('M1', 'A2') and any(bytes(fresh.data)[1:]):
            return ctx.violation('a new %s is not blank' % name, key='blank-' + name, out=bytes(fresh))
    for case, want in ((A2Packet.Case.A2_NO_SUCH_SERVER, ref.A2_NO_SUCH), (A2Packet.Case.A2_DEFAUT, ref.a2([ref.ANY_PROT]))):
        if bytes(A2Packet(case=case)) != want:
            return ctx.violation('A2Packet(case=%s) has wrong bytes' % case.name, key='case-' + case.name, out=bytes(A2Packet(case=case)))
    ctx.case(('independent', tuple(w[:20] for _, _, w in ps)))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900):
        for _ in range(ctx.scale(700, 20000)):
            for name in CLS:
                history(ctx, rng, name)
        for _ in range(ctx.scale(800, 10000)):
            independent(ctx, rng)
            contradict(ctx, rng)
            if rng.random() < 0.2:
                copied(ctx, rng)
        import random
        seeds = [rng.random() for _ in range(4)]
        errs = []

        def body(s):
            r = random.Random(s)
            try:
                for _ in range(ctx.scale(40, 500)):
                    name = r.choice(list(CLS))
                    p = CLS[name]()
                    want = assign(r, name, p)
                    if bytes(p) != want:
                        errs.append((name, bytes(p), want))
            except Exception as e:
                errs.append(('exc', repr(e), ''))
        ts = [threading.Thread(target=body, args=(s,)) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        ctx.ev('threads', len(ts))
        ctx.check(not errs, 'packets built in parallel threads are wrong', key='threads', first=errs[:1])
