"""C04 An encryption nonce is never used twice with a session key."""
import asyncio
import hashlib

from saltchannel.exceptions import ComException, BadPeer
from saltchannel.saltlib.saltlib_native import SaltLibNative
from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl
from saltchannel.saltlib.saltlib_tweetnaclext import SaltLibTweetNaClExt
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role

from vlib import gen, net, ref, sess

PROP = 'C04'
BOOST = 2
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'wire_packets_checked': 20000, 'sessions': 500, 'failed_writes': 200, 'cancelled_writes': 100, 'garbage_reads': 100,
           'bare_channels': 1000, 'long_packets': 30000, 'broken_handshakes': 1000, 'writes_after_broken_handshake': 500}
RULE = ('one evaluation = one session whose encryptions (hook on crypto_box_afternm of every back end) and wire packets were checked against the '
        'nonce sequence; distinct = distinct (options, operation history)')


class Hook:
    """Observes every encryption of the process at the crypto API boundary."""
    def __init__(self):
        self.uses = {}          # key -> [(nonce bytes, digest of message)]
        self.orig = []

    def __enter__(self):
        for cls in (SaltLibNative, SaltLibPyNaCl, SaltLibTweetNaClExt):
            f = cls.crypto_box_afternm
            self.orig.append((cls, f))

            def wrapper(this, m, n, k, _f=f):
                self.uses.setdefault(bytes(k), []).append((bytes(n), hashlib.blake2b(bytes(m), digest_size=8).digest()))
                return _f(this, m, n, k)
            cls.crypto_box_afternm = wrapper
        return self

    def __exit__(self, *a):
        for cls, f in self.orig:
            cls.crypto_box_afternm = f
        return False


def judge(ctx, hook, cfg, pair, info, gaps=False):
    """Offline check of one finished session."""
    key = cfg.session_key
    uses = hook.uses.pop(key, [])
    ctx.ev('encryptions_hooked', len(uses))
    ctx.ev('sessions')
    seen = {}
    nxt = {1: 1, 0: 2}
    for n, dig in uses:
        if n in seen and seen[n] != dig:
            return ctx.violation('two different plaintexts encrypted under one nonce', key='reuse', nonce=n, **info)
        if n in seen:
            continue
        seen[n] = dig
        v = int.from_bytes(n[:8], 'little')
        if n[8:] != bytes(16) or v == 0:
            return ctx.violation('malformed nonce', key='malformed', nonce=n, **info)
        if v != nxt[v & 1]:
            return ctx.violation('nonce %d used where %d is next' % (v, nxt[v & 1]), key='sequence', **info)
        nxt[v & 1] += 2
    for who, first in (('c', 1), ('s', 2)):
        v = first
        for i, raw in enumerate(pair.raw(who)):
            if i == 0:
                continue
            ctx.ev('wire_packets_checked')
            limit = v + (2 * 400 if gaps else 0)
            w = v
            while w <= limit and ref.unbox(raw[2:], w, key) is None:
                w += 2
            if w > limit:
                dup = next((u for u in range(0, v + 2000) if ref.unbox(raw[2:], u, key) is not None), None)
                return ctx.violation('packet %d of %s is not encrypted with nonce %d%s' % (i, who, v, '' if dup is None else ' but with %d' % dup),
                                     key='wire-%s' % who, **info)
            v = w + 2


def many(rng):
    """A batch that cannot share a packet: many packets come from one write call."""
    b = [gen.fill(rng, rng.choice([0, 1, 3, 40])) for _ in range(rng.randrange(5, 40))]
    b.insert(rng.randrange(len(b) + 1), gen.fill(rng, rng.choice([65536, 65537, 70000])))
    return b


async def drain(pair, side):
    while pair.link.q[side] or pair.expect[side]:
        try:
            m = await asyncio.wait_for(pair.app(side).read(), 1)
        except Exception:
            return
        if pair.expect[side]:
            pair.expect[side].pop(0)
        del m


def history(ctx, hook, rng, flavour):
    cfg = sess.Cfg(rng)
    pair = sess.Pair(cfg, rng, rng.choice([0, 0, 2]))
    ops = []
    gaps = flavour == 'fail'

    async def go():
        await pair.up()
        link = pair.link
        for _ in range(rng.randrange(2, 14)):
            side = rng.choice('cs')
            r = rng.random()
            if flavour == 'fail' and r < 0.4:
                e = net.fault(rng)
                e.after = rng.random() < 0.5
                n0 = link.calls[side]
                link.wfail[side] = lambda n: e if n >= n0 else None
                b = many(rng) if rng.random() < 0.2 else gen.batch(rng, 8, 200, 800)
                ops.append(('fail', side, e.after, len(b)))
                try:
                    await pair.write(side, b)
                except Exception as x:
                    if x is not e:
                        raise
                    ctx.ev('failed_writes')
                link.wfail[side] = None
            elif flavour == 'cancel' and r < 0.4:
                b = many(rng) if rng.random() < 0.2 else gen.batch(rng, 8, 200, 800)
                link.jitter, old = 6, link.jitter
                t = asyncio.ensure_future(pair.write(side, b))
                for _ in range(rng.randrange(0, 5)):
                    await asyncio.sleep(0)
                if not t.done():
                    t.cancel()
                    ctx.ev('cancelled_writes')
                try:
                    await t
                except asyncio.CancelledError:
                    pass
                link.jitter = old
                ops.append(('cancel', side, len(b)))
            elif flavour == 'garbage' and r < 0.5:
                g = rng.choice([rng.randbytes(rng.randrange(60)), b'\x06\x00' + rng.randbytes(rng.randrange(16, 60)), b''])
                link.q[side].clear()
                link.inject(side, g)
                ctx.ev('garbage_reads')
                try:
                    await pair.app(side).read()
                except BadPeer:
                    pass
                except Exception:
                    pass
                ops.append(('garbage', side, len(g)))
            elif flavour == 'conc' and r < 0.7:
                link.jitter, old = 4, link.jitter
                bs = [gen.batch(rng, 6, 100, 300) for _ in range(rng.randrange(2, 7))]
                if rng.random() < 0.2:
                    bs[rng.randrange(len(bs))] = many(rng)
                    ctx.ev('concurrent_many')
                await asyncio.gather(*[pair.write(rng.choice('cs'), b) for b in bs])
                link.jitter = old
                ctx.ev('concurrent_groups')
                ops.append(('conc', [len(b) for b in bs]))
            elif r < 0.85:
                b = gen.batch(rng, 20, 400, 2000)
                await pair.write(side, b, is_last=rng.choice([None, False, True]))
                ops.append(('write', side, len(b)))
            elif flavour not in ('fail', 'garbage'):
                await drain(pair, side)
                ops.append(('drain', side))
    o = sess.run1(go)
    info = dict(flavour=flavour, options=cfg.options(), ops=ops)
    if o.kind == 'exc' and not isinstance(o.value, ComException):
        return ctx.fail_exc('history failed', o.value, **info)
    if o.kind != 'ok':
        ctx.ev('history_' + o.brief())
    ctx.case((flavour, cfg.options(), ops))
    judge(ctx, hook, cfg, pair, info, gaps)


def broken_handshake(ctx, hook, rng):
    """The transport fails (before or after it took the data) on a message of the handshake, or the peer refuses to go on; the application goes on writing on
    the application channel all the same."""
    cfg = sess.Cfg(rng)
    link = net.Link(rng, rng.choice([0, 0, 2]))
    pair = sess.Pair(cfg, rng)
    pair.link = link
    side = rng.choice('cs')
    what = rng.choice(['before', 'after', 'cancel', 'garbage'])
    at = rng.randrange(1 if what == 'garbage' else 0, 3)       # (changing M1 or M2 changes the key)
    ops = []

    async def go():
        pair.c = cfg.client(net.AsyncEnd(link, 'c'))
        pair.s = cfg.server(net.AsyncEnd(link, 's'))
        if what in ('before', 'after'):
            bad = net.fault(rng)
            bad.after = what == 'after'
            link.wfail[side] = lambda n: bad if n == at else None
        elif what == 'garbage':
            link.filter['s' if side == 'c' else 'c'] = lambda i, raw: [raw[:-1] + bytes([raw[-1] ^ 1])] if i == at else [raw]
        ts = {w: asyncio.ensure_future(getattr(pair, w).handshake()) for w in 'cs'}
        if what == 'cancel':
            link.jitter = 6
            for _ in range(rng.randrange(0, 30)):
                await asyncio.sleep(0)
            ts[side].cancel()
        for _ in range(60):
            await asyncio.sleep(0)
        link.filter.clear()
        for w in 'cs':
            if not ts[w].done():
                ts[w].cancel()
            try:
                await ts[w]
                ops.append((w, 'ok'))
            except BaseException as e:
                ops.append((w, type(e).__name__))
        for _ in range(rng.randrange(1, 5)):
            w = rng.choice([side, side, 'c', 's'])
            if pair.app(w) is None:
                continue
            b = gen.batch(rng, 8, 200, 800)
            try:
                await pair.write(w, b)
                ctx.ev('writes_after_broken_handshake')
            except Exception as x:
                if not getattr(x, 'injected', False):
                    raise
                ctx.ev('failed_writes')
            ops.append((w, len(b)))
    o = sess.run1(go)
    info = dict(fault=what, side=side, at=at, options=cfg.options(), ops=ops)
    if o.kind == 'exc':
        return ctx.fail_exc('history failed', o.value, key='broken-exc', **info)
    ctx.ev('broken_handshakes')
    ctx.case((what, side, at, cfg.options(), ops))
    judge(ctx, hook, cfg, pair, info, True)


def long(ctx, hook, rng, side, n, start=None):
    """Many packets; optionally starting near a power of two, if the counters are reachable."""
    cfg = sess.Cfg(rng, plain=True)
    key = cfg.session_key
    st = {}

    async def go():
        pair = sess.Pair(cfg, rng)
        await pair.up()
        app = pair.app(side)
        first = (3 if side == 'c' else 4)
        if start is not None:
            try:
                wn = (pair.c if side == 'c' else pair.s).enc_channel.write_nonce
                if not gen.settable(wn, first):
                    return
                first = start + first
                wn.value = first
            except AttributeError:
                return
        st['ran'] = True
        out = []
        pair.link.filter[side] = lambda i, raw: []
        base = len(pair.link.sent[side])
        for i in range(n):
            if i % 7 == 3:
                await app.write(b'x', b'y')
            elif i % 11 == 5:
                await app.write(b'z' * 5, is_last=True)
            else:
                await app.write(b'%d' % i)
            if len(pair.link.sent[side]) > base + 512 or i == n - 1:
                out.extend(pair.raw(side)[base:])
                del pair.link.sent[side][base:]
                for raw in out:
                    ctx.ev('long_packets')
                    if ref.unbox(raw[2:], first, key) is None:
                        ctx.violation('packet after a long history is not encrypted with nonce %d' % first, key='long', side=side, start=start)
                        return
                    first += 2
                out = []
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('long session failed', o.value, key='long-exc', side=side, start=start)
    uses = hook.uses.pop(key, [])
    nn = [u[0] for u in uses]
    ctx.check(len(set(nn)) == len(nn), 'nonce repeated in a long session', key='long-reuse', side=side)
    ctx.case(('long', side, n, start), nontrivial=bool(st))


def bare(ctx, hook, rng):
    """An EncryptedChannelV2 used directly: also with empty messages."""
    key, role = rng.randbytes(32), rng.choice([Role.CLIENT, Role.SERVER])
    link = net.Link(rng, rng.choice([0, 2]))
    first = v = 1 if role is Role.CLIENT else 2
    sizes = []

    async def go():
        ch = EncryptedChannelV2(net.AsyncEnd(link, 'c'), key, role)
        for _ in range(rng.randrange(1, 12)):
            b = [gen.fill(rng, rng.choice([0, 0, 1, 5, 16, rng.randrange(300)])) for _ in range(rng.choice([1, 1, 2, 5]))]
            e = net.fault(rng) if rng.random() < 0.2 else None
            if e:
                e.after = rng.random() < 0.5
            link.wfail['c'] = lambda n: e
            sizes.append([len(m) for m in b] + [bool(e)])
            try:
                await ch.write(*b, is_last=rng.random() < 0.2)
            except Exception as x:
                if x is not e:
                    raise
    o = sess.run1(go)
    ctx.ev('bare_channels')
    ctx.case(('bare', role.name, sizes))
    if o.kind != 'ok':
        return ctx.violation('writing on an EncryptedChannelV2 failed: %s' % o.brief(), key='bare-' + o.brief(), sizes=sizes)
    uses = hook.uses.pop(key, [])
    seen = {}
    for n, dig in uses:
        if seen.setdefault(n, dig) != dig:
            return ctx.violation('two different plaintexts encrypted under one nonce', key='reuse-bare', nonce=n, sizes=sizes)
    for raw, _, _ in link.sent['c']:
        ctx.ev('wire_packets_checked')
        while v < first + 4000 and ref.unbox(raw[2:], v, key) is None:     # a refused write may leave a gap
            v += 2
        if v >= first + 4000:
            return ctx.violation('a packet of an EncryptedChannelV2 is not encrypted with a nonce after those before', key='wire-bare', sizes=sizes)
        v += 2


def huge(ctx, hook, rng, size):
    """Around a message of unusual size."""
    cfg = sess.Cfg(rng)
    side = rng.choice('cs')
    pair = sess.Pair(cfg, rng)
    m = gen.fill(rng, size)

    async def go():
        await pair.up(first=[b'first'] if cfg.buf4 else None)
        for b in ([b'before'], [m], [b'between', m] if size <= 65535 else [b'between'], [m[:-1] + b'!'], [b'after']):
            await pair.write(side, b)
    o = sess.run1(go)
    ctx.ev('huge_messages')
    ctx.case(('huge', side, size, cfg.options()))
    if o.kind != 'ok':
        return ctx.violation('a session with a message of %d bytes fails: %s' % (size, o.brief()), key='huge-' + o.brief(), outcome=repr(o))
    judge(ctx, hook, cfg, pair, dict(size=size, side=side, options=cfg.options()))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1500), Hook() as hook:
        for _ in range(ctx.scale(200, 5000)):
            bare(ctx, hook, rng)
        for _ in range(ctx.scale(200, 4000)):
            for fl in ('plain', 'fail', 'cancel', 'garbage', 'conc'):
                history(ctx, hook, rng, fl)
            for _ in range(4):
                broken_handshake(ctx, hook, rng)
        for k in ctx.share(range(10, 25 if ctx.thorough else 24)):
            huge(ctx, hook, rng, 2 ** k + rng.choice([-1, 0, 1, 40]))
        if ctx.only(1):
            long(ctx, hook, rng, 'c', ctx.scale(40000, 300000))
        if ctx.only(2):
            long(ctx, hook, rng, 's', ctx.scale(40000, 300000))
        for b in ctx.share([2 ** k - d for k in (15, 16, 24, 31, 32, 33, 40, 48, 62) for d in (6, 20)]):
            for side in 'cs':
                long(ctx, hook, rng, side, 40, start=b)
