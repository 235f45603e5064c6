"""C21 worker: one fresh process with one configuration of SaltLib (it is a process-wide singleton). argv[1]: JSON. Prints a JSON report."""
import hashlib
import json
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
cfg = json.loads(sys.argv[1])
from vlib import core  # noqa: E402

core.setup_paths(stub=cfg['stub'])
if not cfg['sodium']:                      # libsodium is not installed
    import ctypes.util
    ctypes.util.find_library = lambda name: None

from nacl import bindings as nb  # noqa: E402
from saltchannel.saltlib import SaltLib, NoSuchLibException  # noqa: E402
from saltchannel.saltlib.saltlib import LibType, RngType  # noqa: E402
from saltchannel.saltlib.saltlib_native import SaltLibNative  # noqa: E402
from saltchannel.saltlib.saltlib_pure import SaltLibPure  # noqa: E402
from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl  # noqa: E402
from saltchannel.saltlib.saltlib_tweetnaclext import SaltLibTweetNaClExt  # noqa: E402

BACK = {'native': SaltLibNative, 'pynacl': SaltLibPyNaCl, 'tweetnacl': SaltLibTweetNaClExt}
TYPES = {'best': LibType.LIB_TYPE_BEST, 'native': LibType.LIB_TYPE_NATIVE, 'pynacl': LibType.LIB_TYPE_PYNACL, 'tweetnacl': LibType.LIB_TYPE_TWEETNACL_EXT}
ORDER = ['native', 'pynacl', 'tweetnacl']
rep = {'problems': [], 'n': {}, 'fresh': []}
rng = random.Random(cfg['seed'])


def ev(k, n=1):
    rep['n'][k] = rep['n'].get(k, 0) + n


def bad(what, **info):
    if len(rep['problems']) < 5:
        rep['problems'].append([what, {k: str(v)[:300] for k, v in info.items()}])


def check(cond, what, **info):
    ev('oracle')
    if not cond:
        bad(what, **info)
    return cond


# --- what is available in this process
for n in cfg['off']:                       # declared unavailable
    BACK[n].isAvailable = staticmethod(lambda: False)
have = [n for n in ORDER if n not in cfg['off'] and not (n == 'native' and not cfg['sodium']) and not (n == 'tweetnacl' and not cfg['stub'])]
for n in ORDER:
    real = bool(BACK[n]().isAvailable())
    check(real == (n in have), 'isAvailable() of a back end is wrong', backend=n, reported=real)


def expect(t):
    if t == 'best':
        return have[0] if have else None
    return t if t in have else None


def get(t, how):
    try:
        lib = SaltLib.getLib(TYPES[t]) if how == 'arg' else SaltLib.getLib()
    except NoSuchLibException:
        return None
    except Exception as e:
        return repr(e)
    for n, c in BACK.items():
        if type(lib) is c:
            return n
    return repr(lib)


def all_get():
    for t in TYPES:
        check(get(t, 'arg') == expect(t), 'getLib() does not return the requested back end', requested=t, available=have, got=get(t, 'arg'), expected=expect(t))
        ev('getlib')
    check(get('best', 'default') == expect('best'), 'getLib() does not return the best back end', available=have, got=get('best', 'default'))


all_get()

# --- spies on all back ends
calls = []
given = []
FUNCS = ['crypto_sign_keypair_not_random', 'crypto_sign', 'crypto_sign_open', 'crypto_box_keypair_not_random', 'crypto_box_beforenm', 'crypto_box_afternm',
         'crypto_box_open_afternm', 'crypto_hash', 'randombytes']


def spy(name, cls, fn):
    orig = getattr(cls, fn)

    def wrapped(self, *a, **k):
        calls.append((name, fn))
        r = orig(self, *a, **k)
        if fn == 'randombytes':
            given.append(r)
        return r
    setattr(cls, fn, wrapped)


for n, c in BACK.items():
    for f in FUNCS:
        spy(n, c, f)

want = expect(cfg['lib'])
lib = None
try:
    kw = {}
    if cfg['how'] == 'positional':
        lib = SaltLib(TYPES[cfg['lib']], RngType.RNG_IMPL if cfg['impl'] else RngType.RNG_URANDOM)
    else:
        if cfg['lib'] != 'best' or cfg['how'] == 'keywords':
            kw['lib_type'] = TYPES[cfg['lib']]
        if cfg['impl'] or cfg['how'] == 'keywords':
            kw['rand_type'] = RngType.RNG_IMPL if cfg['impl'] else RngType.RNG_URANDOM
        lib = SaltLib(**kw)
except NoSuchLibException:
    pass
except Exception as e:
    bad('SaltLib() fails', error=repr(e))
check((lib is None) == (want is None), 'SaltLib() of an unavailable back end', requested=cfg['lib'], available=have)

if lib is not None and want is not None:
    def only(what):
        used = {n for n, f in calls}
        ev('operations')
        check(used <= {want} and (used or what == 'random'), 'an operation did not use the requested back end', operation=what, requested=cfg['lib'], expected=want, used=sorted(used))
        calls.clear()

    def ops():
        seed, sec = rng.randbytes(32), rng.randbytes(32)
        calls.clear()
        k = lib.create_sig_keys_from_sec(seed)
        only('create_sig_keys_from_sec')
        check((k.pub, k.sec) == nb.crypto_sign_seed_keypair(seed), 'create_sig_keys_from_sec', seed=seed.hex())
        k2 = lib.create_sig_keys_from_sec(k.sec)             # the 64 byte secret key starts with the seed
        check(k2 == k, 'create_sig_keys_from_sec of a complete secret key', sec=k.sec.hex())
        calls.clear()
        e = lib.create_enc_keys_from_sec(sec)
        only('create_enc_keys_from_sec')
        check(e.sec == sec and e.pub == nb.crypto_scalarmult_base(sec), 'create_enc_keys_from_sec', sec=sec.hex())
        m = rng.randbytes(rng.choice([0, 1, 16, 100, 1000]))
        s = lib.sign(m, k.sec)
        only('sign')
        check(s == nb.crypto_sign(m, k.sec), 'sign')
        check(lib.sign_open(s, k.pub) == m, 'sign_open')
        only('sign_open')
        check(lib.sha512(m) == hashlib.sha512(m).digest(), 'sha512')
        only('sha512')
        p = nb.crypto_scalarmult_base(rng.randbytes(32))
        sk = lib.compute_shared_key(sec, p)
        only('compute_shared_key')
        check(sk == nb.crypto_box_beforenm(p, sec), 'compute_shared_key')
        nonce = rng.randbytes(24)
        c = lib.encrypt(sk, nonce, m)
        only('encrypt')
        check(c == nb.crypto_box_afternm(m, nonce, sk), 'encrypt')
        check(lib.decrypt(sk, nonce, c) == m, 'decrypt')
        only('decrypt')

    def rand(n):
        given.clear()
        calls.clear()
        r = lib.random_bytes(n)
        ev('random_calls')
        check(isinstance(r, bytes) and len(r) == n, 'random_bytes(n) does not return n bytes', n=n, got=type(r), length=len(r))
        fs = [f for _, f in calls]
        if cfg['impl']:
            check(set(calls) == {(want, 'randombytes')}, 'random bytes did not come from the back end\'s generator', calls=calls[:5])
            check(n == 0 or b''.join(given) == r, 'random_bytes() is not what the back end\'s generator produced', n=n)
        else:
            check(not fs, 'random bytes did not come from the operating system', calls=calls[:5])
        calls.clear()
        return r

    def keys():
        calls.clear()
        s = lib.create_sig_keys()
        used = {x for x in calls if x[1] == 'randombytes'}
        check(used == ({(want, 'randombytes')} if cfg['impl'] else set()), 'create_sig_keys() does not use the requested generator', used=sorted(used))
        check({n for n, f in calls} == {want}, 'create_sig_keys() did not use the requested back end')
        calls.clear()
        e = lib.create_enc_keys()
        used = {x for x in calls if x[1] == 'randombytes'}
        check(used == ({(want, 'randombytes')} if cfg['impl'] else set()), 'create_enc_keys() does not use the requested generator', used=sorted(used))
        check({n for n, f in calls} == {want}, 'create_enc_keys() did not use the requested back end')
        check(len(s.sec) == 64 and nb.crypto_sign_seed_keypair(bytes(s.sec[:32])) == (s.pub, s.sec), 'create_sig_keys() yields an invalid pair', sec=s.sec.hex())
        check(len(e.sec) == 32 and nb.crypto_scalarmult_base(bytes(e.sec)) == e.pub, 'create_enc_keys() yields an invalid pair', sec=e.sec.hex())
        ev('key_pairs', 2)
        return s.sec[:32], e.sec

    for _ in range(cfg['rounds']):
        ops()
        all_get()                                # asking for other back ends does not change this one
        calls.clear()
        SaltLib()
        ops()
    samples = []
    for n in list(range(0, 70)) + [100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 65537, 300001] + [rng.randrange(5000) for _ in range(20)]:
        r = rand(n)
        if n >= 16:
            samples.append(r)
        if n > 60000:
            check(len(set(r)) == 256 and all(r.count(b) < n / 100 for b in range(256)), 'random bytes are not evenly distributed', n=n)
            check(r[:n // 2] != r[n // 2:2 * (n // 2)], 'random bytes repeat', n=n)
            blocks = [r[i:i + 16] for i in range(0, n - 15, 16)]
            check(len(set(blocks)) == len(blocks), 'random bytes repeat within one call', n=n)
    pairs = [keys() for _ in range(cfg['keys'])]
    random.seed(1)
    a = rand(32)
    random.seed(1)
    b = rand(32)
    samples += [a, b]
    for col in (0, 1):
        samples += [p[col] for p in pairs]
    check(len(set(samples)) == len(samples), 'random values repeat: they are not fresh')

    def columns(vals, what):
        acc1, acc0 = 0, 0
        w = min(map(len, vals))
        full = (1 << 8 * w) - 1
        for v in vals:
            x = int.from_bytes(v[:w], 'big')
            acc1 |= x
            acc0 |= ~x & full
        check(acc1 == full and acc0 == full, 'some bits of random values never change', of=what, width=w, ones=hex(acc1), zeros=hex(acc0))
        ev('bit_columns', 8 * w)
    for n in (1, 7, 16, 24, 31, 32, 33, 64):
        columns([rand(n) for _ in range(100)], 'random_bytes(%d)' % n)
    columns([p[0] for p in pairs], 'create_sig_keys')
    columns([p[1] for p in pairs], 'create_enc_keys')
    # threads
    out = []

    def t():
        for _ in range(50):
            out.append(lib.random_bytes(32))
    ts = [threading.Thread(target=t) for _ in range(4)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    check(len(set(out)) == 200, 'random values repeat across threads')
    # a forked child
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, lib.random_bytes(32) + lib.random_bytes(32))
        finally:
            os._exit(0)
    os.close(w)
    child = b''
    while True:
        x = os.read(r, 1000)
        if not x:
            break
        child += x
    os.waitpid(pid, 0)
    mine = [lib.random_bytes(32) for _ in range(2)]
    check(len(child) == 64 and len({child[:32], child[32:]} | set(mine)) == 4, 'a forked process gets the same random values')
    ev('forks')
    rep['fresh'] = [lib.random_bytes(32).hex() for _ in range(4)] + [lib.create_sig_keys().sec.hex(), lib.create_enc_keys().sec.hex()]
    all_get()

# --- the generators of the back ends themselves
for name, c in list(BACK.items()) + [('pure', SaltLibPure)]:
    if name != 'pure' and name not in have:
        continue
    b = c()
    seen = set()
    for n in list(range(0, 70)) + [255, 256, 257, 1000, 65536]:
        try:
            r = b.randombytes(n)
        except Exception as e:
            bad('randombytes(n) of a back end fails', backend=name, n=n, error=repr(e))
            continue
        ev('backend_random')
        if check(len(r) == n and isinstance(r, (bytes, bytearray)), 'randombytes(n) of a back end does not return n bytes', backend=name, n=n, length=len(r), type=type(r)) and n >= 16:
            check(bytes(r) not in seen, 'randombytes() of a back end repeats', backend=name)
            seen.add(bytes(r))
    acc1 = acc0 = 0
    for _ in range(100):
        x = int.from_bytes(b.randombytes(32), 'big')
        acc1 |= x
        acc0 |= ~x & (2 ** 256 - 1)
    check(acc1 == acc0 == 2 ** 256 - 1, 'some bits of randombytes() of a back end never change', backend=name)

sys.stdout.write('\nREPORT ' + json.dumps(rep) + '\n')
