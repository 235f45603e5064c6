"""The python-tweetnacl 'raw' API on top of libsodium, so that the adapter SaltLibTweetNaClExt can be executed."""
from nacl import bindings as _b


def crypto_sign_seed_keypair(seed):
    return _b.crypto_sign_seed_keypair(bytes(seed))


def crypto_sign(m, sk):
    return _b.crypto_sign(bytes(m), bytes(sk))


def crypto_sign_open(sm, pk):
    return _b.crypto_sign_open(bytes(sm), bytes(pk))


def crypto_box_beforenm(pk, sk):
    return _b.crypto_box_beforenm(bytes(pk), bytes(sk))


def crypto_box_afternm(m, n, k):
    return _b.crypto_box_afternm(bytes(m), bytes(n), bytes(k))


def crypto_box_open_afternm(c, n, k):
    return _b.crypto_box_open_afternm(bytes(c), bytes(n), bytes(k))


def crypto_scalarmult_base(n):
    return _b.crypto_scalarmult_base(bytes(n))


def crypto_hash(m):
    return _b.crypto_hash(bytes(m))


def randombytes(n):
    return _b.randombytes(n)
