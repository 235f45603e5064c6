"""An independent Salt Channel v2 implementation, used only as an oracle.

Written from the wire format (struct + PyNaCl bindings + hashlib); shares no code with /repo.
"""
import hashlib
import struct

from nacl import bindings as nb
from nacl.exceptions import CryptoError

M1, M2, M3, M4, APP, ENC, A1, A2, MULTI = 1, 2, 3, 4, 5, 6, 8, 9, 11
SIG1, SIG2 = b'SC-SIG01', b'SC-SIG02'
ANY_PROT = (b'SCv2------', b'----------')
PROT_CHARS = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_')


class Bad(Exception):
    """Not a well-formed packet."""


def sha512(b):
    return hashlib.sha512(bytes(b)).digest()


def sig_keys(seed):
    """-> (sec 64, pub 32)"""
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    return sk, pk


def enc_keys(sec):
    return sec, nb.crypto_scalarmult_base(sec)


def shared(sec, pub):
    return nb.crypto_box_beforenm(pub, sec)


def sign(msg, sec):
    return nb.crypto_sign(msg, sec)[:64]


def verify(sig, msg, pub):
    try:
        return nb.crypto_sign_open(bytes(sig) + bytes(msg), pub) == bytes(msg)
    except Exception:
        return False


def nonce(value, session_nonce=bytes(8)):
    return struct.pack('<Q', value) + session_nonce + bytes(8)


def box(clear, value, key):
    return nb.crypto_box_afternm(bytes(clear), nonce(value), key)


def unbox(body, value, key):
    try:
        return nb.crypto_box_open_afternm(bytes(body), nonce(value), key)
    except (CryptoError, ValueError):
        return None


# --- encoders -------------------------------------------------------------------------------------------------------

def _salsa20(k, n16, last):
    """Salsa20 rounds; last: the block function (feed-forward), else HSalsa20's selection of words."""
    c = struct.unpack('<4I', b'expand 32-byte k')
    k, n = struct.unpack('<8I', k), struct.unpack('<4I', n16)
    x0 = [c[0], k[0], k[1], k[2], k[3], c[1], n[0], n[1], n[2], n[3], c[2], k[4], k[5], k[6], k[7], c[3]]
    x = list(x0)

    def q(a, b, cc, d):
        for dst, p, r, sh in ((b, a, d, 7), (cc, b, a, 9), (d, cc, b, 13), (a, d, cc, 18)):
            t = (x[p] + x[r]) & 0xffffffff
            x[dst] ^= ((t << sh) | (t >> (32 - sh))) & 0xffffffff
    for _ in range(10):
        for i in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            q(*i)
    if last:
        return struct.pack('<16I', *((a + b) & 0xffffffff for a, b in zip(x, x0)))
    return struct.pack('<8I', *(x[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)))


def onetime_key(k, n):
    """The Poly1305 key of a box with this shared key and nonce: the first 32 bytes of the XSalsa20 stream."""
    return _salsa20(_salsa20(k, n[:16], False), n[16:] + bytes(8), True)[:32]


def m1(time, enc_pub, wanted=None, flags=None, ind=b'SCv2', typ=M1):
    f = (1 if wanted else 0) if flags is None else flags
    return ind + struct.pack('<BBI', typ, f, time) + enc_pub + (wanted or b'')


def m2(time, enc_pub, flags=0, typ=M2):
    return struct.pack('<BBI', typ, flags, time) + enc_pub


M2_NO_SUCH = lambda time: m2(time, bytes(32), flags=0x81)   # noqa: E731


def m3(time, sig_pub, sig, typ=M3, flags=0):
    return struct.pack('<BBI', typ, flags, time) + sig_pub + sig


def m4(time, sig_pub, sig, typ=M4, flags=0):
    return struct.pack('<BBI', typ, flags, time) + sig_pub + sig


def app(time, data, typ=APP, flags=0):
    return struct.pack('<BBI', typ, flags, time) + bytes(data)


def multi(time, msgs, count=None, typ=MULTI, flags=0):
    return struct.pack('<BBIH', typ, flags, time, len(msgs) if count is None else count) + \
        b''.join(struct.pack('<H', len(m)) + bytes(m) for m in msgs)


def enc(body, last=False, flags=None, typ=ENC):
    return struct.pack('<BB', typ, (0x80 if last else 0) if flags is None else flags) + bytes(body)


def a1(atype, addr, size=None, typ=A1, flags=0):
    return struct.pack('<BBBH', typ, flags, atype, len(addr) if size is None else size) + addr


def a2(prots, flags=None, count=None, typ=A2):
    f = 0x80 if flags is None else flags
    return struct.pack('<BBB', typ, f, len(prots) if count is None else count) + b''.join(p + q for p, q in prots)


A2_NO_SUCH = a2([], flags=0x81)


# --- decoders: return a dict of fields, raise Bad ---------------------------------------------------------------------

def _need(b, n):
    if len(b) < n:
        raise Bad('short')


def d_m1(b):
    _need(b, 42)
    if b[:4] != b'SCv2' or b[4] != M1:
        raise Bad('type')
    inc = b[5] & 1
    n = 42 + 32 * inc
    _need(b, n)
    return dict(type=M1, flags=b[5], inc=inc, time=struct.unpack_from('<I', b, 6)[0], enc=b[10:42], wanted=b[42:n], used=n)


def d_m2(b):
    _need(b, 38)
    if b[0] != M2:
        raise Bad('type')
    return dict(type=M2, flags=b[1], nosuch=b[1] & 1, last=b[1] >> 7, time=struct.unpack_from('<I', b, 2)[0], enc=b[6:38], used=38)


def _d_m34(b, t):
    _need(b, 102)
    if b[0] != t:
        raise Bad('type')
    return dict(type=t, flags=b[1], time=struct.unpack_from('<I', b, 2)[0], sigkey=b[6:38], sig=b[38:102], used=102)


def d_m3(b):
    return _d_m34(b, M3)


def d_m4(b):
    return _d_m34(b, M4)


def d_enc(b):
    _need(b, 18)
    if b[0] != ENC:
        raise Bad('type')
    return dict(type=ENC, flags=b[1], last=b[1] >> 7, body=b[2:], used=len(b))


def d_app(b):
    _need(b, 6)
    if b[0] != APP:
        raise Bad('type')
    return dict(type=APP, flags=b[1], time=struct.unpack_from('<I', b, 2)[0], data=b[6:], used=len(b))


def d_multi(b):
    _need(b, 8)
    if b[0] != MULTI:
        raise Bad('type')
    count = struct.unpack_from('<H', b, 6)[0]
    if count < 1:
        raise Bad('count')
    off, msgs = 8, []
    for _ in range(count):
        _need(b, off + 2)
        n = struct.unpack_from('<H', b, off)[0]
        off += 2
        _need(b, off + n)
        msgs.append(bytes(b[off:off + n]))
        off += n
    return dict(type=MULTI, flags=b[1], time=struct.unpack_from('<I', b, 2)[0], count=count, msgs=msgs, used=off)


def d_a1(b):
    _need(b, 5)
    if b[0] != A1:
        raise Bad('type')
    size = struct.unpack_from('<H', b, 3)[0]
    _need(b, 5 + size)
    if len(b) != 5 + size:
        raise Bad('size')
    if (b[2], size) not in ((0, 0), (1, 32)):
        raise Bad('address')
    return dict(type=A1, flags=b[1], atype=b[2], size=size, addr=b[5:5 + size], used=5 + size)


def d_a2(b):
    _need(b, 3)
    if b[0] != A2:
        raise Bad('type')
    if not b[1] & 0x80:
        raise Bad('last')
    count = b[2]
    if count > 127 or (b[1] & 1 and count):
        raise Bad('count')
    _need(b, 3 + 20 * count)
    if (len(b) - 3) // 20 != count:
        raise Bad('pairs')
    prots = [(b[3 + 20 * i:13 + 20 * i], b[13 + 20 * i:23 + 20 * i]) for i in range(count)]
    for p, q in prots:
        if not (set(p) <= PROT_CHARS and set(q) <= PROT_CHARS):
            raise Bad('prot')
    return dict(type=A2, flags=b[1], nosuch=b[1] & 1, count=count, prots=prots, used=3 + 20 * count)


DECODERS = {'M1': d_m1, 'M2': d_m2, 'M3': d_m3, 'M4': d_m4, 'ENC': d_enc, 'APP': d_app, 'MULTI': d_multi, 'A1': d_a1, 'A2': d_a2}


def d_appdata(clear):
    """-> (time, [messages])"""
    if clear[:1] == bytes([APP]):
        d = d_app(clear)
        return d['time'], [d['data']]
    d = d_multi(clear)
    if d['used'] != len(clear):
        raise Bad('trailing')
    return d['time'], d['msgs']


# --- reference peers ---------------------------------------------------------------------------------------------------

class Secure:
    """Encrypted packet layer."""
    def __init__(self, key, role):
        self.key = key
        self.wn, self.rn = (1, 2) if role == 'client' else (2, 1)
        self.last = False

    def seal(self, clear, last=False):
        p = enc(box(clear, self.wn, self.key), last)
        self.wn += 2
        return p

    def open(self, pkt):
        d = d_enc(pkt)
        c = unbox(d['body'], self.rn, self.key)
        if c is None:
            raise Bad('decrypt nonce=%d' % self.rn)
        self.rn += 2
        self.last = bool(d['last'])
        return c


class RefClient:
    def __init__(self, sig, enc_, wanted=None):
        self.sig, self.enc, self.wanted = sig, enc_, wanted     # (sec, pub)

    def hello(self, time=0):
        self.m1 = m1(time, self.enc[1], self.wanted)
        return self.m1

    def on_m2(self, b):
        self.m2 = bytes(b)
        d = d_m2(b)
        self.key = shared(self.enc[0], d['enc'])
        self.sec = Secure(self.key, 'client')
        return d

    def on_m3(self, pkt):
        d = d_m3(self.sec.open(pkt))
        if d['used'] != 102 or not verify(d['sig'], SIG1 + sha512(self.m1) + sha512(self.m2), d['sigkey']):
            raise Bad('signature1')
        self.server_key = d['sigkey']
        return d

    def m4(self, time=0):
        return self.sec.seal(m4(time, self.sig[1], sign(SIG2 + sha512(self.m1) + sha512(self.m2), self.sig[0])))


class RefServer:
    def __init__(self, sig, enc_):
        self.sig, self.enc = sig, enc_

    def on_m1(self, b):
        self.m1 = bytes(b)
        d = d_m1(b)
        self.key = shared(self.enc[0], d['enc'])
        self.sec = Secure(self.key, 'server')
        return d

    def hello(self, time=0):
        self.m2 = m2(time, self.enc[1])
        return self.m2

    def m3(self, time=0):
        return self.sec.seal(m3(time, self.sig[1], sign(SIG1 + sha512(self.m1) + sha512(self.m2), self.sig[0])))

    def on_m4(self, pkt):
        d = d_m4(self.sec.open(pkt))
        if d['used'] != 102 or not verify(d['sig'], SIG2 + sha512(self.m1) + sha512(self.m2), d['sigkey']):
            raise Bad('signature2')
        self.client_key = d['sigkey']
        return d
