"""C05 Every written message is read exactly once, in order and unchanged."""
from saltchannel.util.time import NullTimeChecker, NullTimeKeeper
from saltchannel.v2.app_channel_v2 import AppChannelV2
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role

from vlib import gen, net, ref, sess

PROP = 'C05'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'messages_read': 50000, 'size_points': 250, 'count_points': 80, 'scripts': 500, 'huge_batches': 6, 'mutations_after_write': 200, 'long_messages': 60000,
           'sync_scripts': 200}
RULE = ('one evaluation = one session script (writes and reads in both directions) whose every read was compared with the model queue; '
        'distinct = distinct (sizes, batch shapes, read/write order, options, API)')


class Model:
    def __init__(self, ctx, info):
        self.ctx, self.info = ctx, info
        self.q = {'c': [], 's': []}
        self.kept = []

    def wrote(self, side, msgs):
        self.q['s' if side == 'c' else 'c'].extend(msgs)

    def took(self, side, m):
        self.ctx.ev('messages_read')
        if not self.q[side]:
            self.ctx.violation('read() returned a message nobody sent', key='extra', got=m, **self.info)
            return False
        want = self.q[side].pop(0)
        if type(m) not in (bytes, bytearray) and not isinstance(m, (bytes, bytearray)):
            self.ctx.violation('read() returned %s' % type(m).__name__, key='type', **self.info)
            return False
        if bytes(m) != want:
            self.ctx.violation('message differs from what was written', key='differs', want=want, got=m, want_len=len(want), got_len=len(m), **self.info)
            return False
        if len(want) < 5000:
            self.kept.append((m, want))
        return True

    def finish(self):
        for m, want in self.kept:
            if bytes(m) != want:
                self.ctx.violation('a message changed after it was returned', key='aliasing', want=want, got=m, **self.info)
                return


def script(ctx, rng, steps, label, cfg=None, jitter=0):
    """steps: [('w', side, [messages], is_last) | ('r', side, n)]; everything left is read at the end."""
    cfg = cfg or sess.Cfg(rng)
    sess.random_times(cfg, rng)
    info = dict(label=label, options=cfg.options())
    model = Model(ctx, info)
    st = {}

    async def go():
        pair = sess.Pair(cfg, rng, jitter)
        await pair.up()
        if cfg.buf4:
            model.wrote('c', [b'first'])
        for n, step in enumerate(steps):
            st['at'] = n
            if step[0] == 'w':
                _, side, msgs, last = step
                args = [gen.typed(rng, m) for m in msgs]
                kw = {} if last is None else {'is_last': last}
                await pair.app(side).write(*args, **kw)
                model.wrote(side, msgs)
                for a in args:
                    if isinstance(a, bytearray):
                        ctx.ev('mutations_after_write')
                        a[:] = b'\xee' * len(a)
            else:
                _, side, k = step
                for _ in range(min(k, len(model.q[side]))):
                    if not model.took(side, await pair.app(side).read()):
                        return
        for side in 'cs':
            while model.q[side]:
                st['at'] = 'drain ' + side
                if not model.took(side, await pair.app(side).read()):
                    return
        st['left'] = {s: len(pair.link.q[s]) for s in 'cs'}
        model.finish()
    o = sess.run1(go)
    if o.kind == 'exc':
        ctx.fail_exc('write or read failed', o.value, key='exc-%s' % type(o.value).__name__, at=st.get('at'), **info)
    elif o.kind == 'stuck':
        ctx.violation('read() waits for a message that was written', key='lost', at=st.get('at'), pending={k: len(v) for k, v in model.q.items()}, **info)
    elif any(st.get('left', {}).values()):
        ctx.violation('packets left over after all messages were read', key='leftover', **info)


def long(ctx, rng, side, n):
    cfg = sess.Cfg(rng)
    to = 's' if side == 'c' else 'c'

    async def go():
        pair = sess.Pair(cfg, rng)
        await pair.up()
        if cfg.buf4:
            await pair.app('s').read()
        for i in range(n):
            m = b'%d' % i
            await pair.app(side).write(m)
            got = await pair.app(to).read()
            ctx.ev('long_messages')
            if bytes(got) != m:
                ctx.violation('message %d of a long session differs' % i, key='long', got=got)
                return
            del pair.link.trace[:]
    o = sess.run1(go)
    if o.kind != 'ok':
        if o.kind == 'exc':
            ctx.fail_exc('long session failed', o.value, key='long-exc', side=side)
        else:
            ctx.violation('long session stuck', key='long-stuck', side=side)
    ctx.case(('long', side, n))


class Inert(net.SyncEnd):
    """Non-blocking synchronous endpoint (single thread)."""
    def read_sync(self):
        if not self.link.q[self.who]:
            raise net.Cut('empty')
        return self.link.pop(self.who)


def sync_script(ctx, d, rng):
    key = rng.randbytes(32)
    link = net.Link()
    app = {}
    for side, role in (('c', Role.CLIENT), ('s', Role.SERVER)):
        app[side] = AppChannelV2(EncryptedChannelV2(Inert(link, side), key, role), NullTimeKeeper(), NullTimeChecker())
    model = Model(ctx, dict(label='sync'))
    shape = []
    try:
        for _ in range(rng.randrange(1, 25)):
            side = rng.choice('cs')
            if rng.random() < 0.5:
                b = gen.batch(rng, 60, 3000, 8000)
                app[side].write_sync(*[gen.typed(rng, m) for m in b])
                model.wrote(side, b)
                shape.append((side, [len(m) for m in b]))
            else:
                k = rng.randrange(1, 6)
                for _ in range(min(k, len(model.q[side]))):
                    if not model.took(side, app[side].read_sync()):
                        return
                shape.append((side, k))
        for side in 'cs':
            while model.q[side]:
                if not model.took(side, app[side].read_sync()):
                    return
    except Exception as e:
        ctx.fail_exc('synchronous write or read failed', e, key='sync-exc', shape=str(shape)[:600])
        return
    model.finish()
    ctx.ev('sync_scripts')
    ctx.case(('sync', shape))


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(1800):
        # every interesting size, alone and inside a batch, both directions
        for n in ctx.share(gen.sizes(70000) + [100000, 131071, 131072, 131073, 262144, 1000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]):
            for side in 'cs':
                msgs = [gen.fill(rng, n)]
                script(ctx, rng, [('w', side, msgs, None), ('w', side, [b'after'], None)], 'size %d' % n)
                script(ctx, rng, [('w', side, [b'a', gen.fill(rng, n), b'', b'b'], None), ('w', side, [b'after'], None)], 'size %d in batch' % n)
                ctx.ev('size_points')
                ctx.case(('size', n, side))
        # every interesting batch count
        for n in ctx.share(gen.counts(300) + [500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]):
            for side in 'cs':
                msgs = [b'%d' % i + gen.fill(rng, rng.randrange(3)) for i in range(n)]
                script(ctx, rng, [('w', side, msgs, None), ('w', side, [b'after'], None)], 'count %d' % n)
                ctx.ev('count_points')
                ctx.case(('count', n, side))
        big = [65534, 65535, 65536, 65537] + [v + 1 for v in gen.literals()[0] if 4097 < v < 65530][:6]
        for n in ctx.share(big * 2 + [70001, 131073]):
            side = rng.choice('cs')
            pool = [b'%d' % i for i in range(300)] + [b''] * 60 + [b'\0', b'\0\0', b'\xff', b' ', b'\x05\x00', b'\x0b\x00'] * 8 + [rng.randbytes(rng.randrange(20)) for _ in range(300)]
            msgs = [rng.choice(pool) for i in range(n)]
            script(ctx, rng, [('w', side, msgs, None), ('w', side, [b'after'], None)], 'count %d' % n, cfg=sess.Cfg(rng, plain=True))
            ctx.ev('huge_batches')
            ctx.case(('count', n, side))
        # total size of one batch beyond 64 KiB and beyond 1 MiB
        for k, n in ctx.share([(2, 65535), (3, 30000), (17, 65535), (1000, 100), (40, 65536), (2, 65536), (300, 300)]):
            for side in 'cs':
                msgs = [gen.fill(rng, n) for _ in range(k)]
                script(ctx, rng, [('w', side, msgs, None), ('w', side, [b'after'], None)], 'batch %dx%d' % (k, n))
                ctx.case(('batch', k, n, side))
        for _ in range(ctx.scale(180, 4000)):
            steps = []
            for _ in range(rng.randrange(1, 30)):
                side = rng.choice('cs')
                if rng.random() < 0.55:
                    steps.append(('w', side, gen.batch(rng, 60, rng.choice([50, 300, 3000, 70000]), 80000), rng.choice([None, None, False, True])))
                else:
                    steps.append(('r', side, rng.randrange(1, 8)))
            script(ctx, rng, steps, 'random', jitter=rng.choice([0, 0, 1, 3]))
            ctx.ev('scripts')
            ctx.case(('script', [(s[0], s[1], [len(m) for m in s[2]] if s[0] == 'w' else s[2]) for s in steps]))
        if ctx.only(3):
            long(ctx, rng, 'c', ctx.scale(34000, 200000))
        if ctx.only(6):
            long(ctx, rng, 's', ctx.scale(34000, 200000))
    with ctx.cpu_guard(900), net.Driver() as d:
        for _ in range(ctx.scale(120, 2500)):
            sync_script(ctx, d, rng)
