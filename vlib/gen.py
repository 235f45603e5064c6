"""Workload generators. All randomness comes from the rng of the shard."""
import ast
import os

from . import core, ref

_SIZES = sorted(set(list(range(0, 70)) + [2 ** k + d for k in range(4, 17) for d in (-2, -1, 0, 1, 2)] +
                    [99, 100, 101, 1000, 1500, 4095, 4096, 9999, 10000, 16368, 16384, 65533, 65534, 65535, 65536, 65537, 70000]))
_COUNTS = list(range(1, 41)) + [50, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258]

_lits = None


def literals():
    """Integer and byte-string literals of the code under test: a fuzzing dictionary mined from its current text."""
    global _lits
    if _lits is None:
        ints, bts = set(), set()
        for root, dirs, files in os.walk(os.path.join(core.REPO, 'saltchannel')):
            if 'pure_pynacl' in root:
                continue
            for f in sorted(files):
                if not f.endswith('.py') or f == 'crypto_test_data.py':
                    continue
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.BinOp):
                        try:
                            v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}}, {})
                            if isinstance(v, int) and not isinstance(v, bool):
                                ints.add(v)
                            elif isinstance(v, bytes) and len(v) < 5000:
                                bts.add(v)
                        except Exception:
                            pass
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, bool):
                            continue
                        if isinstance(n.value, int):
                            ints.add(n.value)
                        elif isinstance(n.value, bytes) and n.value:
                            bts.add(n.value)
        _lits = sorted(i for i in ints if 0 <= i < 2 ** 64), sorted(bts)
    return _lits


def sizes(maximum=70000):
    lits = [v + d for v in literals()[0] for d in (-1, 0, 1)]
    return sorted(set(s for s in _SIZES + lits if 0 <= s <= maximum))


def size(rng, maximum=70000):
    r = rng.random()
    if r < 0.45:
        return min(maximum, rng.randrange(0, 64))
    if r < 0.85:
        s = rng.choice(sizes(maximum))
        return s
    return rng.randrange(0, min(maximum, 3000) + 1)


def small(rng):
    return size(rng, 300)


def counts(maximum=260):
    return sorted(set(c for c in _COUNTS + [v + d for v in literals()[0] for d in (-1, 0, 1)] if 1 <= c <= maximum))


_LOOKALIKE = [ref.app(0, b'x'), ref.multi(0, [b'a', b'b']), b'SCv2' + bytes(38), ref.m2(0, bytes(32)), ref.enc(bytes(20)),
              ref.a1(0, b''), ref.a2([ref.ANY_PROT]), b'\x0b\x00', b'\x05\x00', b'\x0b', b'\x05', b'\x06\x80', b'\x04\x00', b'\x03\x00']


def fill(rng, n):
    """n bytes of adversarially chosen content"""
    r = rng.random()
    if r < 0.45:
        return rng.randbytes(n)
    if r < 0.55:
        return bytes(n)
    if r < 0.62:
        return b'\xff' * n
    if r < 0.70:
        return (rng.randbytes(n // 2) + bytes(n))[:n]           # trailing zeros
    if r < 0.76:
        return (bytes(n // 2) + rng.randbytes(n))[:n]           # leading zeros
    if r < 0.84:
        return (rng.choice(_LOOKALIKE) + rng.randbytes(n))[:n]
    if r < 0.90 and literals()[1]:
        return (rng.choice(literals()[1]) + rng.randbytes(n))[:n]
    if r < 0.93 and literals()[0]:
        return bytes([rng.choice([v for v in literals()[0] if v < 256])]) * n
    if r < 0.96:
        return bytes([rng.randrange(256)]) * n
    return (b'\r\n\t \x00' * (n // 5 + 1))[:n]


def message(rng, maximum=70000):
    return fill(rng, size(rng, maximum))


def typed(rng, b):
    """The same bytes in one of the accepted types."""
    return b if rng.random() < 0.7 else bytearray(b)


def batch(rng, max_count=40, max_size=70000, total=200000):
    r = rng.random()
    n = 1 if r < 0.35 else rng.randrange(2, 6) if r < 0.75 else rng.choice(counts(max_count))
    out, left = [], total
    for _ in range(n):
        m = message(rng, max(0, min(max_size, left)))
        left -= len(m)
        out.append(m)
    if n > 1:                                    # messages that are related to each other
        r = rng.random()
        if r < 0.05:
            out = [b''] * n
        elif r < 0.10:
            out = [out[0]] * n if len(out[0]) * n <= total else out
        elif r < 0.13:
            out = [m if i == n - 1 else b'' for i, m in enumerate(out)]
        elif r < 0.16:
            out = [b'' if i else m for i, m in enumerate(out)]
        elif r < 0.20:                           # one continues or nearly repeats the other
            out = [out[0][:len(out[0]) - i] if i % 2 else out[0][:1] * (i % 7) for i in range(n)] if len(out[0]) * n <= total else out
    return out


_EDGE32 = [bytes(32), b'\xff' * 32, b'\x00' * 31 + b'\x01', b'\x01' + bytes(31), b'\x80' + bytes(31), bytes(31) + b'\x80',
           bytes(range(32)), b'\x7f' * 32, b'\x08' * 32]


def sec32(rng):
    return rng.choice(_EDGE32) if rng.random() < 0.1 else rng.randbytes(32)


def times(rng):
    """A value of a Time field: 0 .. 2^31-1"""
    r = rng.random()
    if r < 0.5:
        return rng.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31 - 2, 0x01020304, 0x7f000000])
    if r < 0.7:
        return rng.choice([v for v in literals()[0] if v < 2 ** 31])
    return rng.randrange(2 ** 31)


_pool = {}


def special_keys(kind):
    """Key pairs whose public key has unusual bytes (zero, 0xff, high bit ...) at the ends; found by search."""
    if kind not in _pool:
        import random
        r = random.Random('special/' + kind)
        make = ref.sig_keys if kind == 'sig' else ref.enc_keys
        want = [lambda p: p[0] == 0, lambda p: p[31] == 0, lambda p: p[0] == 255, lambda p: p[0] >= 128 and p[31] >= 127,
                lambda p: p[0] == p[1], lambda p: 0 in p[8:24] and p[15] == 0, lambda p: p[0] == 83, lambda p: p[0] in (9, 10, 13, 32)]
        out = []
        for w in want:
            for _ in range(6000):
                k = make(r.randbytes(32))
                if w(k[1]):
                    out.append(k)
                    break
        _pool[kind] = out
    return _pool[kind]


def keys(rng, kind):
    if rng.random() < 0.2:
        return rng.choice(special_keys(kind))
    return (ref.sig_keys if kind == 'sig' else ref.enc_keys)(sec32(rng))


def settable(nonce, v):
    """True if this counter stands at v and can be moved by assigning its value (that it can is a matter of how the code is written)."""
    try:
        if not isinstance(nonce.value, int) or nonce.value != v:
            return False
        nonce.value = v + 64
        ok = bytes(nonce)[:8] == (v + 64).to_bytes(8, 'little')
        nonce.value = v
        return ok and bytes(nonce)[:8] == v.to_bytes(8, 'little')
    except (AttributeError, TypeError):
        return False
