"""Hostile byte strings: mutations of every packet type, boundary lengths, look-alikes."""
import struct

from . import gen, ref

LOW_ORDER = [bytes(32), b'\x01' + bytes(31), bytes.fromhex('ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
             bytes.fromhex('e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800'),
             bytes.fromhex('5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157'),
             bytes.fromhex('edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
             bytes.fromhex('eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f'),
             bytes(31) + b'\x80', b'\xff' * 32]
NAMES = ['M1', 'M2', 'M3', 'M4', 'ENC', 'APP', 'MULTI', 'A1', 'A2']
TYPES = [1, 2, 3, 4, 5, 6, 8, 9, 11]


def key32(rng):
    return rng.choice(LOW_ORDER) if rng.random() < 0.25 else rng.randbytes(32)


def prot(rng):
    if rng.random() < 0.5:
        return rng.choice([b'SCv2------', b'----------', b'ECHO------', b'a.b/c_d-EF', b'0123456789'])
    return bytes(rng.choice(sorted(ref.PROT_CHARS)) for _ in range(10))


def valid(rng, name):
    """A well-formed packet of that type (reserved bits zero)."""
    t = gen.times(rng) if rng.random() < 0.8 else rng.randrange(2 ** 32)
    if name == 'M1':
        return ref.m1(t, key32(rng), key32(rng) if rng.random() < 0.5 else None)
    if name == 'M2':
        return ref.m2(t, key32(rng), flags=rng.choice([0, 0, 0x81, 0x80]))
    if name == 'M3':
        return ref.m3(t, key32(rng), rng.randbytes(64))
    if name == 'M4':
        return ref.m4(t, key32(rng), rng.randbytes(64))
    if name == 'ENC':
        return ref.enc(gen.fill(rng, 16 + gen.small(rng)), rng.random() < 0.5)
    if name == 'APP':
        return ref.app(t, gen.message(rng, rng.choice([20, 300, 70000])))
    if name == 'MULTI':
        r = rng.random()
        if r < 0.7:
            n = rng.randrange(1, 6)
        elif r < 0.97:
            n = rng.choice(gen.counts(260))
        else:
            n = rng.choice([1000, 32767, 32768, 65535])
        return ref.multi(t, [gen.fill(rng, gen.size(rng, 40)) if n < 50 else b'x' * (i % 3) for i in range(n)])
    if name == 'A1':
        return ref.a1(0, b'') if rng.random() < 0.3 else ref.a1(1, key32(rng))
    if name == 'A2':
        if rng.random() < 0.2:
            return ref.A2_NO_SUCH
        n = rng.choice([0, 1, 1, 2, 3, 4, 16, 63, 64, 100, 126, 127]) if rng.random() < 0.6 else rng.randrange(0, 128)
        return ref.a2([(prot(rng), prot(rng)) for _ in range(n)])
    raise KeyError(name)


def mutate(rng, b):
    b = bytearray(b)
    r = rng.random()
    if r < 0.25 and b:
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif r < 0.45:
        del b[rng.randrange(len(b) + 1):]
    elif r < 0.55:
        b += rng.randbytes(rng.choice([1, 2, 3, 18, 20, 32, 100]))
    elif r < 0.70 and b:
        i = rng.randrange(min(len(b), 12))
        b[i] = rng.choice([0, 1, 2, 127, 128, 129, 254, 255, 32, 33, 11, rng.randrange(256)])
    elif r < 0.80 and len(b) > 8:
        i = rng.choice([2, 3, 6, 8, rng.randrange(len(b) - 1)])
        b[i:i + 2] = struct.pack('<H', rng.choice([0, 1, 2, 31, 32, 33, 255, 256, 32767, 32768, 65534, 65535, len(b), max(0, len(b) - 8), max(0, len(b) - 10)]) % 65536)
    elif r < 0.85 and b:
        b[0] = rng.randrange(256)
    elif r < 0.90 and len(b) > 3:
        i = rng.randrange(len(b))
        del b[i:i + rng.randrange(1, 4)]
    elif r < 0.95:
        i = rng.randrange(len(b) + 1)
        b[i:i] = rng.randbytes(rng.randrange(1, 4))
    else:
        b = b[::-1]
    return bytes(b)


def raw(rng):
    r = rng.random()
    if r < 0.12:
        return rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 18, 19, 37, 38, 39, 41, 42, 43, 73, 74, 75, 101, 102, 103, rng.randrange(300)]))
    if r < 0.30:
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 18, 19, 37, 38, 39, 42, 74, 102, 103, rng.randrange(1, 200)])
        return (bytes([rng.choice(TYPES)]) + gen.fill(rng, n))[:n]
    if r < 0.36:
        n = rng.choice([4, 5, 6, 10, 41, 42, 43, 73, 74, 75, 200])
        return (b'SCv2' + rng.choice([b'\x01', b'\x01', b'\x02', b'']) + gen.fill(rng, n))[:n]
    if r < 0.40:
        return gen.fill(rng, gen.small(rng))
    b = valid(rng, rng.choice(NAMES))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        b = mutate(rng, b)
    return b
