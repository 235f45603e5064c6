"""C15 All crypto back ends compute the same, correct functions."""
import hashlib

from nacl import bindings as nb

from saltchannel.saltlib import SaltLib
from saltchannel.saltlib.exceptions import BadEncryptedDataException, BadSignatureException
from saltchannel.saltlib.saltlib_native import SaltLibNative
from saltchannel.saltlib.saltlib_pure import SaltLibPure
from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl
from saltchannel.saltlib.saltlib_tweetnaclext import SaltLibTweetNaClExt

from vlib import gen, ref

PROP = 'C15'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'native_values': 5000, 'pynacl_values': 5000, 'tweetnacl_values': 5000, 'pure_values': 500, 'facade_values': 5000, 'tampered_rejected': 30000,
           'pure_tampered': 200, 'pure_signatures': 8, 'wrong_lengths': 2000, 'cross_accepted': 1000, 'malleable_rejected': 20,
           'unusual_public_keys': 500, 'authenticator_edges': 500}
RULE = ('one evaluation = one call of one crypto back end whose result was compared with libsodium as bundled in PyNaCl / hashlib, or a tampered input that must be '
        'rejected; distinct = distinct (back end, function, inputs)')
ASSUMPTIONS = ['The tweetnacl extension is not installed here: SaltLibTweetNaClExt runs on a stand-in with the same API (stubs/tweetnacl) unless it is.']
L = 2 ** 252 + 27742317777372353535851937790883648493


class Facade:
    """SaltLib with the argument order of the back ends."""
    def __init__(self):
        self.s = SaltLib()

    def crypto_sign_keypair_not_random(self, seed):
        k = self.s.create_sig_keys_from_sec(seed)
        return k.pub, k.sec

    def crypto_box_keypair_not_random(self, sk):
        k = self.s.create_enc_keys_from_sec(sk)
        return k.pub, k.sec

    def crypto_sign(self, m, sk):
        return self.s.sign(m, sk)

    def crypto_sign_open(self, sm, pk):
        return self.s.sign_open(sm, pk)

    def crypto_box_beforenm(self, pk, sk):
        return self.s.compute_shared_key(sk, pk)

    def crypto_box_afternm(self, m, n, k):
        return self.s.encrypt(k, n, m)

    def crypto_box_open_afternm(self, c, n, k):
        return self.s.decrypt(k, n, c)

    def crypto_hash(self, m):
        return self.s.sha512(m)


def same(ctx, name, lib, fn, args, want):
    try:
        got = getattr(lib, fn)(*args)
        got = tuple(bytes(x) for x in got) if isinstance(got, tuple) else bytes(got)
    except Exception as e:
        ctx.fail_exc('%s.%s failed on valid input' % (name, fn), e, key='%s-%s-exc' % (name, fn), args=args)
        return None
    ctx.ev(name + '_values')
    ctx.case((name, fn, args if sum(map(len, args)) < 400 else [(len(a), a[:40]) for a in args]))
    ctx.check(got == want, '%s.%s returns another value than the reference' % (name, fn), key='%s-%s' % (name, fn), args=args, got=got, want=want)
    return got


def rejects(ctx, name, lib, fn, args, exc, what):
    ctx.ev('tampered_rejected')
    if name == 'pure':
        ctx.ev('pure_tampered')
    try:
        got = getattr(lib, fn)(*args)
    except exc:
        return
    except Exception as e:
        ctx.fail_exc('%s.%s (%s)' % (name, fn, what), e, key='%s-%s-%s' % (name, fn, what), args=args)
        return
    ctx.violation('%s.%s accepted %s' % (name, fn, what), key='%s-%s-%s' % (name, fn, what), args=args, got=got)


def flip(b, bit):
    b = bytearray(b)
    b[bit // 8] ^= 1 << bit % 8
    return bytes(b)


def signing(ctx, rng, name, lib, size, flips):
    seed = gen.sec32(rng)
    m = gen.fill(rng, size)
    rpk, rsk = nb.crypto_sign_seed_keypair(seed)
    rsm = nb.crypto_sign(m, rsk)
    same(ctx, name, lib, 'crypto_sign_keypair_not_random', (seed,), (rpk, rsk))
    sm = same(ctx, name, lib, 'crypto_sign', (m, rsk), rsm)
    same(ctx, name, lib, 'crypto_sign_open', (rsm, rpk), m)
    if name == 'pure':
        ctx.ev('pure_signatures')
    if sm is not None:
        try:
            ctx.check(nb.crypto_sign_open(sm, rpk) == m, 'signature of %s is not accepted elsewhere' % name, key=name + '-cross')
            ctx.ev('cross_accepted')
        except Exception as e:
            ctx.fail_exc('signature of %s is not accepted elsewhere' % name, e, key=name + '-cross')
    n = len(rsm) * 8
    for _ in range(flips):
        # a changed bit: in R, in S, in the message, in the key
        part = rng.randrange(4)
        if part == 3:
            rejects(ctx, name, lib, 'crypto_sign_open', (rsm, flip(rpk, rng.randrange(256))), BadSignatureException, 'a changed public key')
        else:
            lo, hi = [(0, 256), (256, 512), (512, n)][part]
            if hi > lo:
                rejects(ctx, name, lib, 'crypto_sign_open', (flip(rsm, rng.randrange(lo, hi)), rpk), BadSignatureException, 'a changed bit')
    if flips:
        for x in (rsm + b'\x00', rsm + rng.randbytes(rng.randrange(1, 20)), rsm[:-1] if m else rsm[:63], rsm[:rng.randrange(0, 64)], b'', rsm[:63],
                  rng.randbytes(64) + m, bytes(64) + m):
            if name == 'pure' and rng.random() < 0.7:
                continue
            rejects(ctx, name, lib, 'crypto_sign_open', (x, rpk), BadSignatureException, 'a signed message of another length or content')
        s = int.from_bytes(rsm[32:64], 'little')
        for k in (1, 2, 3, 7):
            if s + k * L < 2 ** 256 and (name != 'pure' or k == 1):
                ctx.ev('malleable_rejected')
                rejects(ctx, name, lib, 'crypto_sign_open', (rsm[:32] + (s + k * L).to_bytes(32, 'little') + m, rpk), BadSignatureException, 'a malleated signature')


def agreement(ctx, rng, name, lib):
    a, b = gen.sec32(rng), gen.sec32(rng)
    pa, pb = nb.crypto_scalarmult_base(a), nb.crypto_scalarmult_base(b)
    same(ctx, name, lib, 'crypto_box_keypair_not_random', (a,), (pa, a))
    k = same(ctx, name, lib, 'crypto_box_beforenm', (pb, a), nb.crypto_box_beforenm(pb, a))
    if rng.random() < (0.3 if name == 'pure' else 1):
        k2 = same(ctx, name, lib, 'crypto_box_beforenm', (pa, b), nb.crypto_box_beforenm(pa, b))
        ctx.check(k is None or k2 is None or k == k2, 'the two shared keys differ', key=name + '-shared')


P25519 = 2 ** 255 - 19
P1305 = 2 ** 130 - 5


def unusual_public(ctx, rng, name, lib):
    """Public keys that are no multiple of the base point, not reduced, or have the ignored bit set: X25519 is defined for them all."""
    r = rng.random()
    if r < 0.35:
        v = P25519 + rng.randrange(2, 19)                    # not reduced
    elif r < 0.6:
        v = rng.choice([2, 3, 4, 5, 6, 9, 16, 2 ** 16 - 1, 2 ** 128, 2 ** 254, P25519 - 2, P25519 - 3, P25519 - 9, 2 ** 255 - 1, 2 ** 254 - 1])
    else:
        v = rng.randrange(2 ** 255)                          # on the curve or on its twist
    if rng.random() < 0.5:
        v |= 2 ** 255
    pk, sk = v.to_bytes(32, 'little'), gen.sec32(rng)
    try:
        want = nb.crypto_box_beforenm(pk, sk)
    except Exception:
        return                                               # small order: back ends may refuse it
    ctx.ev('unusual_public_keys')
    same(ctx, name, lib, 'crypto_box_beforenm', (pk, sk), want)


def authenticator_edges(ctx, rng, name, lib):
    """Ciphertexts whose Poly1305 sum is just below or above the modulus, where an incomplete reduction shows."""
    k, n = rng.randbytes(32), nonce(rng)
    stream = nb.crypto_box_afternm(bytes(96), n, k)[16:]                     # key stream from position 32 on
    poly = ref.onetime_key(k, n)
    r = int.from_bytes(poly[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    if not r:
        return
    inv = pow(r, -1, P1305)
    t = rng.choice([0, 1, 2, 3, 4, 5, P1305 - 1, P1305 - 2, P1305 - 5, 2 ** 128 - 1, 2 ** 128, 2 ** 129, 3 * 2 ** 128])
    for _ in range(60):
        c1 = rng.randbytes(16)
        x = (t * inv - (int.from_bytes(c1, 'little') + 2 ** 128) * r - 2 ** 128) % P1305
        if x < 2 ** 128:
            break
    else:
        return
    body = c1 + x.to_bytes(16, 'little')
    m = bytes(a ^ b for a, b in zip(body, stream))
    want = nb.crypto_box_afternm(m, n, k)
    if want[16:] != body or int.from_bytes(want[:16], 'little') != ((t % P1305) + int.from_bytes(poly[16:], 'little')) % 2 ** 128:
        return
    ctx.ev('authenticator_edges')
    same(ctx, name, lib, 'crypto_box_afternm', (m, n, k), want)
    same(ctx, name, lib, 'crypto_box_open_afternm', (want, n, k), m)
    for d in (1, 5, -5, -1):
        bad = ((int.from_bytes(want[:16], 'little') + d) % 2 ** 128).to_bytes(16, 'little')
        rejects(ctx, name, lib, 'crypto_box_open_afternm', (bad + body, n, k), BadEncryptedDataException, 'another authenticator')


def nonce(rng):
    r = rng.random()
    if r < 0.6:
        v = rng.choice([0, 1, 2, 3, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 16)])
        return v.to_bytes(8, 'little') + bytes(16)
    if r < 0.8:                       # runs of zeros or ones anywhere
        a, b = sorted((rng.randrange(25), rng.randrange(25)))
        n = bytearray(rng.randbytes(24))
        n[a:b] = rng.choice([b'\x00', b'\x00', b'\xff']) * (b - a)
        return bytes(n)
    return rng.randbytes(24)


def boxing(ctx, rng, name, lib, size, flips, every=False):
    k, n, m = rng.randbytes(32), nonce(rng), gen.fill(rng, size)
    rc = nb.crypto_box_afternm(m, n, k)
    same(ctx, name, lib, 'crypto_box_afternm', (m, n, k), rc)
    same(ctx, name, lib, 'crypto_box_open_afternm', (rc, n, k), m)
    bits = range(len(rc) * 8) if every else [rng.randrange(len(rc) * 8) for _ in range(flips)]
    for b in bits:
        rejects(ctx, name, lib, 'crypto_box_open_afternm', (flip(rc, b), n, k), BadEncryptedDataException, 'a changed bit')
    if flips or every:
        rejects(ctx, name, lib, 'crypto_box_open_afternm', (rc, flip(n, rng.randrange(192)), k), BadEncryptedDataException, 'another nonce')
        rejects(ctx, name, lib, 'crypto_box_open_afternm', (rc, n, flip(k, rng.randrange(256))), BadEncryptedDataException, 'another key')
        for x in (b'', rc[:15], rc[:rng.randrange(0, 16)], rc[:-1], rc + b'\x00', rc[1:], bytes(16), bytes(len(rc)), rng.randbytes(len(rc)), bytes(16) + rc):
            if x != rc:
                rejects(ctx, name, lib, 'crypto_box_open_afternm', (x, n, k), BadEncryptedDataException, 'another ciphertext')


def hashing(ctx, rng, name, lib, size):
    m = gen.fill(rng, size)
    same(ctx, name, lib, 'crypto_hash', (m,), hashlib.sha512(m).digest())


def lengths(ctx, rng):
    """SaltLibNative never processes keys, seeds and nonces of the wrong length."""
    lib = SaltLibNative()
    seed, k32, n24, m = rng.randbytes(32), rng.randbytes(32), rng.randbytes(24), rng.randbytes(rng.randrange(40))
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    pub = nb.crypto_scalarmult_base(k32)
    good = {
        'crypto_sign_keypair_not_random': [(seed,), (0,)],
        'crypto_sign': [(m, sk), (1,)],
        'crypto_sign_open': [(nb.crypto_sign(m, sk), pk), (1,)],
        'crypto_box_keypair_not_random': [(k32,), (0,)],
        'crypto_box_beforenm': [(pub, k32), (0, 1)],
        'crypto_box_afternm': [(m, n24, k32), (1, 2)],
        'crypto_box_open_afternm': [(nb.crypto_box_afternm(m, n24, k32), n24, k32), (1, 2)],
    }
    for fn, (args, idx) in good.items():
        for i in idx:
            right = len(args[i])
            for ln in {0, 1, right - 1, right + 1, right // 2, right * 2, right - 8, right + 8, rng.randrange(0, 100), 31, 33, 32, 24, 64, 23, 25, 63, 65}:
                if ln == right or ln < 0:
                    continue
                bad = list(args)
                bad[i] = (args[i] + rng.randbytes(ln))[:ln]
                ctx.ev('wrong_lengths')
                ctx.case(('length', fn, i, ln))
                try:
                    getattr(lib, fn)(*bad)
                except ValueError:
                    continue
                except Exception as e:
                    ctx.fail_exc('SaltLibNative.%s: argument %d of length %d' % (fn, i, ln), e, key='length-%s-%d' % (fn, i))
                    continue
                ctx.violation('SaltLibNative.%s processed argument %d of length %d (right: %d)' % (fn, i, ln, right), key='length-%s-%d' % (fn, i))


def run(ctx):
    rng = ctx.rng
    libs = [('native', SaltLibNative()), ('pynacl', SaltLibPyNaCl()), ('tweetnacl', SaltLibTweetNaClExt()), ('facade', Facade())]
    pure = SaltLibPure()
    with ctx.cpu_guard(3000):
        for name, lib in libs:
            for _ in range(ctx.scale(150, 4000)):
                signing(ctx, rng, name, lib, gen.size(rng, rng.choice([200, 3000])), 6)
                agreement(ctx, rng, name, lib)
                boxing(ctx, rng, name, lib, gen.size(rng, rng.choice([200, 3000])), 6)
                hashing(ctx, rng, name, lib, gen.size(rng, 3000))
                unusual_public(ctx, rng, name, lib)
                authenticator_edges(ctx, rng, name, lib)
            for s in ctx.share(gen.sizes(70000)):
                signing(ctx, rng, name, lib, s, 1)
                boxing(ctx, rng, name, lib, s, 2)
                hashing(ctx, rng, name, lib, s)
            for s in (0, 1, 15, 16, 17, 40):
                boxing(ctx, rng, name, lib, s, 0, every=True)
            if ctx.only(5):
                for s in (1 << 20, (1 << 22) + 1):
                    boxing(ctx, rng, name, lib, s, 2)
                    hashing(ctx, rng, name, lib, s)
        for _ in range(ctx.scale(20, 200)):
            lengths(ctx, rng)
        # the pure Python back end is slow: few signatures, more of the rest
        signing(ctx, rng, 'pure', pure, gen.size(rng, 60), 3)
        agreement(ctx, rng, 'pure', pure)
        for i in range(ctx.scale(4, 60)):
            unusual_public(ctx, rng, 'pure', pure)
        for i in range(ctx.scale(20, 400)):
            authenticator_edges(ctx, rng, 'pure', pure)
        for i in range(ctx.scale(2, 60)):
            signing(ctx, rng, 'pure', pure, gen.size(rng, 300), 2)
            agreement(ctx, rng, 'pure', pure)
        for s in ctx.share([0, 0, 0, 0, 1, 2, 32, 64]):
            signing(ctx, rng, 'pure', pure, s, 4)
        for s in ctx.share(list(range(0, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 500, 1000] + ([3000, 10000] if ctx.thorough else [])):
            hashing(ctx, rng, 'pure', pure, s)
            boxing(ctx, rng, 'pure', pure, s, 3)
        for fn, s in ctx.share([(hashing, 8191), (hashing, 8192 + rng.randrange(200)), (hashing, 16384 + rng.randrange(900)), (boxing, 16384 - 32), (boxing, 16384 + rng.randrange(100)),
                                (boxing, 16640 + rng.randrange(900)), (hashing, 33000), (boxing, 33000)] + ([(boxing, 66000), (hashing, 66000), (boxing, 1 << 18), (hashing, 1 << 18)] if ctx.thorough else [])):
            ctx.ev('pure_large')
            fn(ctx, rng, 'pure', pure, s, *([0] if fn is boxing else []))
        for s in (111, 112, 113, 239, 240, 241):
            hashing(ctx, rng, 'pure', pure, s)
        for _ in range(ctx.scale(8, 300)):
            boxing(ctx, rng, 'pure', pure, gen.size(rng, 300), 4)
