"""C19 The synchronous and asynchronous APIs are equivalent."""
import asyncio
import random
import threading

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A1Packet, A2Packet
from saltchannel.dev.mitm_channel import MitmChannel
from saltchannel.exceptions import BadPeer, TimeException
from saltchannel.v2.app_channel_v2 import AppChannelV2
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role

from vlib import gen, hostile, net, ref, sess

PROP = 'C19'
SHARDS = {'quick': 8, 'thorough': 8}
MODES = ('main', 'bare', 'after_run', 'thread', 'cross', 'mixed')
REQUIRE = dict({'scripts': 3000, 'operations_compared': 20000, 'failed_operations': 3000, 'kind_client': 500, 'kind_server': 500, 'kind_a1': 200, 'kind_enc': 100,
                'kind_app': 100, 'thread_repeats': 20, 'given_loops': 300}, **{'mode_' + m: 100 for m in MODES})
RULE = ('one evaluation = one script of operations on one object (client, server, A1 client, encrypted or app channel) against one deterministic peer, executed through '
        'the coroutines and through the *_sync calls in one thread context; wire bytes, grouping, results, exception types and state compared; distinct = distinct (script, context)')


class Peer:
    """Deterministic peer, honest or hostile, that follows from the rng alone."""
    def __init__(self, rng, cfg, kind, evil):
        self.rng, self.cfg, self.kind, self.evil = rng, cfg, kind, evil
        self.n = 0
        self.out = 0
        self.at = rng.randrange(0, 5)
        self.how = rng.choice(['mutate', 'raw', 'drop', 'dup', 'cut'])
        self.cut = False
        self.sec = None

    def start(self):
        if self.kind == 'server':
            self.ref = ref.RefClient(self.cfg.csig, self.cfg.cenc, self.cfg.ssig[1] if self.cfg.want else None)
            if self.evil and self.rng.random() < 0.3:
                return self.send([hostile.raw(self.rng)])
            if self.rng.random() < 0.15:
                return self.send([ref.a1(0, b'') if self.rng.random() < 0.5 else ref.a1(1, self.cfg.ssig[1])])
            if self.rng.random() < 0.1:
                self.ref.wanted = self.rng.randbytes(32)
            return self.send([self.ref.hello(self.rng.choice([0, 1]))])
        self.ref = ref.RefServer(self.cfg.ssig, self.cfg.senc)
        return []

    def send(self, msgs):
        res = []
        for m in msgs:
            if self.cut:
                break
            if self.evil and self.out == self.at:
                h = self.how
                res += {'mutate': lambda: [hostile.mutate(self.rng, m)], 'raw': lambda: [hostile.raw(self.rng)], 'drop': lambda: [], 'dup': lambda: [m, m],
                        'cut': lambda: []}[h]()
                self.cut = h == 'cut'
            else:
                res.append(m)
            self.out += 1
        return res

    def chatter(self):
        out = []
        for _ in range(self.rng.choice([0, 1, 1, 2, 3])):
            r = self.rng.random()
            if r < 0.5:
                c = ref.app(gen.times(self.rng), gen.message(self.rng, 300))
            elif r < 0.9:
                c = ref.multi(gen.times(self.rng), [gen.message(self.rng, 60) for _ in range(self.rng.randrange(1, 5))])
            elif self.evil:
                c = hostile.raw(self.rng)
            else:
                c = ref.app(0, b'')
            out.append(self.sec.seal(c, self.rng.random() < 0.2))
        return out

    def __call__(self, raw):
        self.n += 1
        r = self.rng
        try:
            if self.kind == 'client':
                if self.n == 1:
                    if r.random() < 0.1:
                        return self.send([ref.m2(0, bytes(32), flags=0x81)])
                    self.ref.on_m1(raw)
                    self.sec = self.ref.sec
                    return self.send([self.ref.hello(r.choice([0, 1])), self.ref.m3(gen.times(r))])
                return self.send(self.chatter())
            if self.kind == 'server':
                if self.n == 1:
                    self.ref.on_m2(raw)
                    return []
                if self.n == 2:
                    self.sec = self.ref.sec
                    self.sec.rn += 2
                    return self.send([self.ref.m4(gen.times(r))] + self.chatter())
                return self.send(self.chatter())
            if self.kind == 'a1':
                return self.send([r.choice([ref.A2_NO_SUCH, ref.a2([ref.ANY_PROT]), ref.a2([(hostile.prot(r), hostile.prot(r)) for _ in range(3)])])])
            return self.send(self.chatter())
        except ref.Bad:
            return []


class Fragile(net.ScriptEnd):
    """Its n-th write, or n-th read, fails."""
    wfail = rfail = None

    def read_sync(self):
        if self.rfail is not None and self.reads == self.rfail[0]:
            self.reads += 1
            raise self.rfail[1]
        return super().read_sync()

    def write_sync(self, msg, *args, is_last=False):
        if self.wfail is not None and len(self.calls) == self.wfail[0]:
            self.calls.append('failed')
            raise self.wfail[1]
        super().write_sync(msg, *args, is_last=is_last)


class Script:
    """The object under test, its peer and the operations; a fresh, identical copy for every execution."""
    def __init__(self, seed):
        rng = random.Random(seed)
        self.kind = kind = rng.choice(['client', 'client', 'server', 'server', 'a1', 'enc', 'app'])
        self.evil = rng.random() < 0.4
        cfg = self.cfg = sess.Cfg(rng)
        if rng.random() < 0.5:
            sess.random_times(cfg, rng)
        cfg.cc, cfg.sc = sess.Checker(), sess.Checker()
        if rng.random() < 0.1:
            k = rng.randrange(4)
            e = rng.choice([TimeException, BadPeer])
            cfg.cc.refuse = cfg.sc.refuse = lambda what, i, t: e('refused') if i == k else None
        peer = Peer(random.Random(rng.random()), cfg, kind, self.evil)
        self.end = ch = Fragile(peer, inbox=peer.start())
        if rng.random() < 0.12:
            ch.wfail = (rng.randrange(4), net.fault(rng))
        if rng.random() < 0.12:
            ch.rfail = (rng.randrange(4), net.fault(rng))
        if rng.random() < 0.25:
            ch = MitmChannel(ch)
        self.top = ch
        self.broken = rng.random() < 0.04
        self.nops = rng.randrange(0, 9)
        self.rng = rng
        key = rng.randbytes(32)
        self.addr = cfg.ssig[1] if rng.random() < 0.5 else None
        self.a2 = [(hostile.prot(rng), hostile.prot(rng)) for _ in range(rng.randrange(4))] if rng.random() < 0.5 else None
        if kind in ('enc', 'app'):
            role = rng.choice([Role.CLIENT, Role.SERVER])
            peer.sec = ref.Secure(key, 'server' if role == Role.CLIENT else 'client')
            self.make_channel = lambda: EncryptedChannelV2(self.top, key, role)
        ops = []
        if kind == 'a1':
            ops.append(('do_a1a2',))
        elif kind in ('client', 'server'):
            ops.append(('handshake',))
        for _ in range(self.nops if kind != 'a1' else 0):
            if rng.random() < 0.55:
                ops.append(('write', self.arg(rng), rng.choice([None, None, True, False])))
            else:
                ops.append(('read',))
        self.ops = ops

    @staticmethod
    def arg(rng):
        b = gen.batch(rng, 12, 300, 2000)
        if rng.random() < 0.004:
            b = [rng.randbytes(rng.randrange(3)) for _ in range(rng.choice([100, 255, 256, 257, 300, 1025]))]
        if rng.random() < 0.08:
            b[rng.randrange(len(b))] = rng.choice(['text', None, 7, 1.5, ['x']])
        return b

    def build(self):
        k = self.kind
        if k == 'client':
            self.obj = self.cfg.client(self.top)
        elif k == 'server':
            self.obj = self.cfg.server(self.top)
            if self.a2 is not None:
                self.obj.a2 = A2Packet(src_buf=ref.a2(self.a2))
        elif k == 'a1':
            self.obj = A1ClientSession(self.top)
            if self.addr:
                self.obj.a1 = A1Packet(src_buf=ref.a1(1, self.addr))
        else:
            self.obj = self.make_channel()
            if k == 'app':
                self.obj = AppChannelV2(self.obj, self.cfg.ck or sess.Keeper(0, lambda i: 0), self.cfg.cc)
        if self.broken and k in ('client', 'server'):
            self.obj.enc_keypair = None
        self.res = []
        self.phase = 'open' if k in ('enc', 'app') else 'new'

    def step(self, op, call):
        """call(object, method name, args, kwargs) -> Outcome"""
        if op[0] in ('handshake', 'do_a1a2'):
            o = call(self.obj, op[0], (), {})
        else:
            target = self.obj if self.kind in ('enc', 'app') else getattr(self.obj, 'app_channel', None)
            if target is None:
                self.res.append('no channel')
                return
            if op[0] == 'write':
                o = call(target, 'write', tuple(op[1]), {} if op[2] is None else {'is_last': op[2]})
            else:
                o = call(target, 'read', (), {})
        v = o.value
        if o.kind == 'exc':
            r = ('exc', type(v).__module__ + '.' + type(v).__name__)
        else:
            r = (o.kind, bytes(v).hex() if isinstance(v, (bytes, bytearray, memoryview)) else repr(v))
        self.res.append((op[0], r))

    def record(self):
        s, st = self.obj, {}
        for f in ('session_key', 'client_sig_key', 'is_done', 'm1', 'm2', 'm3', 'm4', 'a2'):
            v = getattr(s, f, None)
            if v is not None:
                st[f] = bytes(v).hex() if f != 'is_done' else v
        app = getattr(s, 'app_channel', None)
        st['last'] = bool(app.last) if app is not None else getattr(s, 'last', None)
        out = {'results': self.res, 'wire': [m.hex() for m in self.end.sent], 'grouping': self.end.calls, 'reads': self.end.reads, 'left': len(self.end.inbox),
               'state': st, 'checked': [self.cfg.cc.log, self.cfg.sc.log],
               'times': [k.log for k in (self.cfg.ck, self.cfg.sk) if k is not None]}
        if self.top is not self.end:
            out['counters'] = (self.top.counter_read, self.top.counter_write)
        return out


def outcome(f):
    try:
        return net.Outcome('ok', f())
    except net.Stuck:
        return net.Outcome('stuck')
    except Exception as e:
        return net.Outcome('exc', e)


def call_sync(obj, name, args, kw):
    return outcome(lambda: getattr(obj, name + '_sync')(*args, **kw))


def execute_async(seed):
    """All operations as coroutines, within one loop."""
    sc = Script(seed)

    async def go():
        sc.build()
        for op in sc.ops:
            await astep(sc, op)
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.close()
    return sc.record()


async def astep(sc, op):
    box = []

    def call(obj, name, args, kw):
        box.append((obj, name, args, kw))
        return net.Outcome('ok')
    n = len(sc.res)
    sc.step(op, call)
    if not box:
        return
    obj, name, args, kw = box[0]
    try:
        o = net.Outcome('ok', await getattr(obj, name)(*args, **kw))
    except Exception as e:
        o = net.Outcome('exc', e)
    del sc.res[n:]
    sc.step(op, lambda *a: o)


def execute_sync(seed, mode, rng):
    sc = Script(seed)
    if mode == 'main':
        with net.Driver():
            sc.build()
            for op in sc.ops:
                sc.step(op, call_sync)
    elif mode in ('bare', 'after_run'):
        if mode == 'after_run':
            asyncio.run(asyncio.sleep(0))
        else:
            asyncio.set_event_loop(None)
        try:
            sc.build()
            for op in sc.ops:
                sc.step(op, call_sync)
        finally:
            close_loop()
    elif mode == 'thread':
        in_thread(lambda: all_sync(sc))
    elif mode == 'cross':
        with net.Driver():
            sc.build()
            in_thread(lambda: [sc.step(op, call_sync) for op in sc.ops])
    elif mode == 'mixed':
        with net.Driver() as d:
            sc.build()
            for op in sc.ops:
                if rng.random() < 0.5:
                    sc.step(op, call_sync)
                else:
                    d.loop.run_until_complete(astep(sc, op))
    return sc.record()


def all_sync(sc):
    sc.build()
    for op in sc.ops:
        sc.step(op, call_sync)


def close_loop():
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            loop = asyncio.get_event_loop_policy().get_event_loop()
        if not loop.is_running():
            loop.close()
    except RuntimeError:
        pass
    asyncio.set_event_loop(None)


def in_thread(f):
    err = []

    def body():
        try:
            f()
        except BaseException as e:
            err.append(e)
        finally:
            try:
                close_loop()
            except Exception:
                pass
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join()
    if err:
        raise err[0]


def compare(ctx, seed, mode, a, b, sc):
    ctx.ev('scripts')
    ctx.ev('mode_' + mode)
    ctx.ev('kind_' + sc.kind)
    ctx.ev('operations_compared', len(a['results']))
    ctx.ev('failed_operations', sum(1 for r in a['results'] if r[1][0] == 'exc'))
    ctx.case((seed, mode))
    ctx.state((sc.kind, [(r[0], r[1] if r[1][0] == 'exc' else 'ok') for r in a['results']], a['grouping']))
    if a != b:
        diff = [k for k in a if a[k] != b[k]]
        ctx.violation('the *_sync calls (%s) do not do the same as the coroutines: %s differ' % (mode, diff), key='%s-%s' % (sc.kind, diff[:1]), mode=mode, kind=sc.kind,
                      coroutines={k: a[k] for k in diff[:3]}, sync={k: b[k] for k in diff[:3]})


class Where(net.ScriptEnd):
    """Records the event loop each coroutine of the transport runs in."""
    def __init__(self, *a):
        super().__init__(*a)
        self.where = []

    async def read(self):
        self.where.append(asyncio.get_running_loop())
        return self.read_sync()

    async def write(self, msg, *args, is_last=False):
        self.where.append(asyncio.get_running_loop())
        self.write_sync(msg, *args, is_last=is_last)


def given_loop(ctx, rng):
    """loop= of a session or channel: its *_sync calls run there, whatever the current event loop of the thread is."""
    cfg = sess.Cfg(rng)
    kind = rng.choice(['client', 'server', 'enc', 'app'])
    current = rng.choice(['other', 'none', 'same', 'closed'])
    thread = rng.random() < 0.3
    mine = asyncio.new_event_loop()
    other = asyncio.new_event_loop()
    peer = Peer(random.Random(rng.random()), cfg, kind, False)
    key = rng.randbytes(32)
    res = []
    ends = []

    def body():
        asyncio.set_event_loop({'other': other, 'none': None, 'same': mine, 'closed': other}[current])
        if current == 'closed':
            other.close()
        ch = Where(peer, ())
        ends.append(ch)
        peer.rng = random.Random(3)
        if kind == 'server':
            peer.ref = ref.RefClient(cfg.csig, cfg.cenc)
            ch.inbox.append(peer.ref.hello(0))
        else:
            ch.inbox.extend(peer.start())
        if kind in ('client', 'server'):
            s = getattr(cfg, kind)(ch, loop=mine)
        else:
            peer.sec = ref.Secure(key, 'server')
            s = EncryptedChannelV2(ch, key, Role.CLIENT, loop=mine)
            if kind == 'app':
                s = AppChannelV2(s, sess.Keeper(0, lambda i: 0), sess.Checker(), loop=mine)
        if kind in ('client', 'server'):
            res.append(call_sync(s, 'handshake', (), {}))
            s = s.app_channel
        if s is not None:
            res.append(call_sync(s, 'write', (b'one', b'two'), {}))
            if ch.inbox:
                res.append(call_sync(s, 'read', (), {}))
    try:
        if thread:
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join()
        else:
            body()
    finally:
        asyncio.set_event_loop(None)
        mine.close()
        other.close()
    ctx.case(('loop', kind, current, thread, cfg.key()))
    ctx.ev('given_loops')
    info = dict(kind=kind, current=current, thread=thread, outcome=[repr(r) for r in res], n=len(ends[0].where) if ends else None)
    bad = [r for r in res if not r.ok]
    if not res or bad:
        return ctx.violation('*_sync of an object with an event loop of its own: %s' % (bad[0].brief() if bad else 'nothing ran'), key='loop-' + kind, **info)
    ctx.check(all(w is mine for w in ends[0].where), '*_sync did not run in the event loop the object was given', key='loop-other-' + kind, **info)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        for i in range(ctx.scale(3500, 60000)):
            seed = '%s-%d' % (rng.random(), i)
            mode = MODES[i % len(MODES)]
            a = execute_async(seed)
            try:
                b = execute_sync(seed, mode, rng)
            except Exception as e:
                ctx.fail_exc('the synchronous API does not work (%s)' % mode, e, key='broken-' + mode)
                continue
            compare(ctx, seed, mode, a, b, Script(seed))
        for i in range(ctx.scale(100, 2000)):
            given_loop(ctx, rng)
        for i in range(ctx.scale(30, 300)):       # many sessions one after the other in one thread
            seeds = ['rep%s-%d' % (rng.random(), j) for j in range(12)]
            want = [execute_async(s) for s in seeds]
            got = []

            def rep():
                for s in seeds:
                    sc = Script(s)
                    all_sync(sc)
                    got.append(sc.record())
            try:
                in_thread(rep)
            except Exception as e:
                ctx.fail_exc('repeated synchronous sessions in one thread fail', e, key='repeat')
                continue
            ctx.ev('thread_repeats')
            for s, a, b in zip(seeds, want, got):
                compare(ctx, s, 'repeat', a, b, Script(s))
