"""Workload of C16, run in its own process under AddressSanitizer or valgrind.

memwork.py MODE SEED N       prints one line 'EVENTS {json}' at the end"""
import ctypes
import hashlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402

core.setup_paths()
from saltchannel.a1a2.packets import A1Packet, A2Packet  # noqa: E402
from saltchannel.saltlib.saltlib_native import SaltLibNative  # noqa: E402
from saltchannel.v2.packets import (M1Packet, M2Packet, M3Packet, M4Packet, EncryptedPacket, AppPacket, MultiAppPacket)  # noqa: E402
import saltchannel.util as util  # noqa: E402
from vlib import gen, hostile, net, ref, sess  # noqa: E402

EV = {}
KINDS = {'M1': M1Packet, 'M2': M2Packet, 'M3': M3Packet, 'M4': M4Packet, 'ENC': EncryptedPacket, 'APP': AppPacket, 'MULTI': MultiAppPacket,
         'A1': A1Packet, 'A2': A2Packet}
OK = Exception            # which exception it is, is the business of other properties
SEEN = set()


def seen(*key):
    SEEN.add(hashlib.blake2b(repr(key).encode(), digest_size=5).hexdigest())


def ev(n, k=1):
    EV[n] = EV.get(n, 0) + k


def touch(b):
    """Depend on every byte: use of undefined memory becomes visible to valgrind."""
    return sum(bytes(b)) & 1 == 2


def parse(cls, b):
    ev('parsed')
    seen('p', cls.__name__, b)
    keep = bytes(bytearray(b))
    try:
        p = cls(src_buf=b)
        ev('parsed_ok')
        touch(bytes(p))
        p.size
        for f in ('ServerSigKey', 'ClientEncKey', 'ServerEncKey', 'Signature1', 'Signature2', 'ClientSigKey', 'Body', 'Data', 'Address', 'ProtocolIndicator'):
            try:
                touch(getattr(p, f))
            except Exception:
                pass
        if cls is A2Packet:
            for x in p.Prot:
                touch(bytes(x.P1))
                touch(bytes(x.P2))
        if cls is MultiAppPacket:
            for m in p.opt.Message:
                touch(m)
        q = cls(src_buf=bytes(p))
        touch(bytes(q))
    except OK as e:
        ev('rejected_' + type(e).__name__)
    if bytes(b) != keep:
        print('INPUT MODIFIED by', cls.__name__)
        sys.exit(66)


def build(rng):
    """Building packets from field values of all sizes, including wrong ones."""
    ev('built')
    n = rng.choice([0, 1, 31, 32, 32, 32, 33, 63, 64, 65, rng.randrange(200)])
    v = rng.randbytes(n)
    k = rng.randrange(9)
    try:
        if k == 0:
            p = M1Packet()
            p.data.Header.ServerSigKeyIncluded = rng.randrange(2)
            p.create_opt_fields()
            p.ClientEncKey = rng.randbytes(32)
            p.ServerSigKey = v
        elif k == 1:
            p = M2Packet()
            p.ServerEncKey = v
        elif k == 2:
            p = M3Packet()
            p.ServerSigKey = rng.randbytes(32)
            p.Signature1 = v
        elif k == 3:
            p = M4Packet()
            p.ClientSigKey = v
            p.Signature2 = rng.randbytes(64)
        elif k == 4:
            p = EncryptedPacket()
            p.Body = gen.message(rng, 3000)
        elif k == 5:
            p = AppPacket()
            p.Data = gen.message(rng, 3000)
            touch(bytes(p))
            p.Data = gen.message(rng, 30)
        elif k == 6:
            p = MultiAppPacket()
            msgs = gen.batch(rng, 20, 100, 1000)
            p.data.Count = len(msgs)
            p.create_opt_fields(msgs=msgs)
        elif k == 7:
            p = A1Packet()
            p.data.AddressType, p.data.AddressSize = 1, n
            p.create_opt_fields()
            p.Address = v
        else:
            p = A2Packet()
            c = rng.randrange(0, 128)
            p.data.Count = c
            p.create_opt_fields(prot_count=c)
            for i in range(c):
                p.Prot[i].P1 = util.cbytes(b'SCv2------')
                p.Prot[i].P2 = util.cbytes(rng.randbytes(10) if rng.random() < 0.9 else v)
        touch(bytes(p))
        touch(bytes(type(p)(src_buf=bytes(p))))
    except OK as e:
        ev('rejected_' + type(e).__name__)


LENS = [0, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 66, 80, 127, 128, 129]


def native(rng, lib):
    ev('native')
    r = lambda *c: rng.randbytes(rng.choice(c) if rng.random() < 0.6 else rng.choice(LENS))   # noqa: E731
    m = rng.randbytes(rng.choice(LENS + [200, 1000, 4096]))
    if rng.random() < 0.02:
        m = rng.randbytes(rng.choice([4097, 8191, 8193, 16385, 32769, 65535, 65537, 131073]))
        ev('native_large')
    k = rng.randrange(9)
    fn, args = [('crypto_sign_keypair_not_random', lambda: (r(32),)),
                ('crypto_sign', lambda: (m, r(64))),
                ('crypto_sign_open', lambda: (rng.choice([m, b'', m[:63], rng.randbytes(64)]), r(32))),
                ('crypto_box_keypair_not_random', lambda: (r(32),)),
                ('crypto_box_beforenm', lambda: (r(32), r(32))),
                ('crypto_box_afternm', lambda: (m, r(24), r(32))),
                ('crypto_box_open_afternm', lambda: (m, r(24), r(32))),
                ('crypto_hash', lambda: (m,)),
                ('randombytes', lambda: (rng.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, 255, 256, 1000, 4096, 65536]),))][k]
    a = args()
    if k == 2 and rng.random() < 0.5:
        pk, sk = ref.nb.crypto_sign_seed_keypair(rng.randbytes(32))
        a = (ref.nb.crypto_sign(m, sk), pk)
    if k == 6 and rng.random() < 0.5:
        key = rng.randbytes(32)
        a = (ref.nb.crypto_box_afternm(m, bytes(24), key), bytes(24), key)
    seen('n', fn, a)
    keep = [bytes(bytearray(x)) if isinstance(x, bytes) else x for x in a]
    try:
        out = getattr(lib, fn)(*a)
        ev('native_ok')
        for x in out if isinstance(out, tuple) else (out,):
            touch(x)
        if fn == 'randombytes' and len(out) != a[0]:
            print('randombytes(%d) returned %d bytes' % (a[0], len(out)))
            sys.exit(66)
    except OK as e:
        ev('rejected_' + type(e).__name__)
    if list(a) != keep:
        print('INPUT MODIFIED by', fn)
        sys.exit(66)


def session(rng, d):
    ev('sessions')
    cfg = sess.Cfg(rng)
    link = net.Link(rng, 1)
    up, down = gen.batch(rng, 10, 600, 3000), gen.batch(rng, 10, 600, 3000)

    async def client():
        c = cfg.client(net.AsyncEnd(link, 'c'))
        await c.handshake()
        await c.app_channel.write(*up)
        for _ in down:
            touch(await c.app_channel.read())

    async def server():
        s = cfg.server(net.AsyncEnd(link, 's'))
        await s.handshake()
        for _ in up:
            touch(await s.app_channel.read())
        await s.app_channel.write(*down)
    net.run_async({'c': client, 's': server})
    # hostile first messages
    for _ in range(3):
        b = hostile.raw(rng)
        d.call('sync', cfg.server(net.ScriptEnd(None, [b])), 'handshake')
        d.call('sync', cfg.client(net.ScriptEnd(lambda raw: [b, hostile.raw(rng)])), 'handshake')


def main():
    mode, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rng = random.Random('memwork/' + seed)
    if mode == 'canary':
        buf = (ctypes.c_uint8 * 64)()
        src = rng.randbytes(64)
        ctypes.memmove(buf, src, int(seed))
        print('not noticed')
        return
    lib = SaltLibNative()
    # each function on large input, valid so that the whole of it is processed
    for size in (65537, 100003, 131073) + ((262147, 1048583) if mode != 'valgrind' else ()):
        m, key = rng.randbytes(size), rng.randbytes(32)
        pk, sk = ref.nb.crypto_sign_seed_keypair(rng.randbytes(32))
        for fn, a in (('crypto_sign', (m, sk)), ('crypto_sign_open', (ref.nb.crypto_sign(m, sk), pk)), ('crypto_hash', (m,)),
                      ('crypto_box_afternm', (m, bytes(24), key)),
                      ('crypto_box_open_afternm', (ref.nb.crypto_box_afternm(m, bytes(24), key), bytes(24), key))):
            ev('native')
            ev('native_large')
            seen('n', fn, a)
            try:
                touch(getattr(lib, fn)(*a))
            except OK as e:
                ev('rejected_' + type(e).__name__)
    with net.Driver() as d:
        # all lengths of all packet types
        for name in sorted(KINDS):
            v = hostile.valid(rng, name)[:400] + rng.randbytes(60)
            for i in range(0, len(v), 1 if mode == 'asan' else 3):
                parse(KINDS[name], v[:i])
        for name in sorted(KINDS):
            for b in (b'', b'\x00', bytes([KINDS[name].TYPE])):
                parse(KINDS[name], b)
        for _ in range(n):
            b = hostile.raw(rng)
            if len(b) > 20000 and mode != 'asan':
                b = b[:5000]
            parse(KINDS[rng.choice(sorted(KINDS))], b)
            v = hostile.valid(rng, rng.choice(hostile.NAMES))
            if len(v) < 20000 or mode == 'asan':
                parse(KINDS[rng.choice(sorted(KINDS))], hostile.mutate(rng, v))
            build(rng)
            for _ in range(3):
                native(rng, lib)
            if rng.random() < 0.03:
                session(rng, d)
    print('EVENTS ' + json.dumps(EV))
    print('SEEN ' + ' '.join(sorted(SEEN)))


if __name__ == '__main__':
    main()
    sys.stdout.flush()
