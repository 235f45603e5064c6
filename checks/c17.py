"""C17 Concurrent sessions do not influence each other."""
import asyncio
import os
import pickle
import random
import re
import sys
import threading

from saltchannel.a1a2.a1_client_session import A1ClientSession
from saltchannel.a1a2.packets import A2Packet
from saltchannel.exceptions import TimeException

from vlib import gen, hostile, net, ref, sess

PROP = 'C17'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'groups_tasks': 50, 'groups_threads': 15, 'groups_loops': 10, 'sessions_compared': 1500, 'failing_sessions': 200, 'abandoned_sessions': 100,
           'a1_sessions': 100, 'later_sessions': 100}
RULE = ('one evaluation = one session run together with others (tasks of one loop, threads, or several loops in threads) and compared - wire bytes, deliveries, '
        'errors, checker calls, final state - with the same session run alone; distinct = distinct (session, group, mode)')


class Spec:
    """A deterministic session: keys, options, script and peer behaviour follow from the seed."""
    def __init__(self, seed):
        self.seed = seed
        rng = random.Random('spec/%s' % seed)
        self.rng0 = rng
        self.kind = rng.choice(['echo', 'echo', 'echo', 'echo', 'a1', 'nosuch', 'garbage', 'refuse', 'tamper', 'abandon', 'wfail'])
        self.steps = [(rng.choice('cs'), gen.batch(rng, 8, 200, 800), rng.random() < 0.2, rng.randrange(4)) for _ in range(rng.randrange(1, 8))]
        self.cseed = rng.random()
        self.at = rng.randrange(1, 6)
        self.blob = hostile.raw(rng)
        self.prots = [(hostile.prot(rng), hostile.prot(rng)) for _ in range(rng.randrange(0, 5))]
        self.addr = rng.random() < 0.5

    def start(self, jitter_rng, jitter):
        """A fresh instance of the session."""
        r = Run()
        rng = random.Random(self.cseed)
        r.cfg = cfg = sess.Cfg(rng)
        if rng.random() < 0.6:                       # parties meet again: long-term and even ephemeral keys that other sessions have too
            pool = random.Random('pool/%d' % rng.randrange(4))
            for name, kind, p in (('csig', 'sig', 0.6), ('ssig', 'sig', 0.7), ('cenc', 'enc', 0.3), ('senc', 'enc', 0.5)):
                k = gen.keys(pool, kind)
                if rng.random() < p:
                    setattr(cfg, name, k)
        cfg.ck = sess.Keeper(1, lambda i: 2 + i)
        cfg.sk = sess.Keeper(1, lambda i: 1000 + 3 * i)
        cfg.cc, cfg.sc = sess.Checker(), sess.Checker()
        if self.kind != 'refuse':                    # some have the default keepers and checkers, which all sessions share
            for name, p in (('ck', 0.3), ('sk', 0.3), ('cc', 0.4), ('sc', 0.4)):
                if rng.random() < p:
                    setattr(cfg, name, None)
        if self.kind == 'refuse':
            n = self.at
            f = lambda k, i, t: TimeException('refused %d' % i) if i == n else None   # noqa: E731
            (cfg.cc if n % 2 else cfg.sc).refuse = f
        r.link = net.Link(jitter_rng, jitter)
        r.got = {'c': [], 's': []}
        r.state = {}
        r.spec = self
        if self.kind in ('garbage', 'tamper'):
            who = 'cs'[self.at % 2]

            def filt(i, raw):
                if i == self.at // 2 + 1:
                    return [self.blob] if self.kind == 'garbage' else [raw[:-1] + bytes([raw[-1] ^ 1])]
                return [raw]
            r.link.filter[who] = filt
        if self.kind == 'abandon':                   # the client loses interest: it hears nothing more from here on
            k = self.at % 2
            r.link.filter['s'] = lambda i, raw: [raw] if i < k else []
        if self.kind == 'wfail':
            k = self.at
            r.link.wfail['cs'[k % 2]] = lambda n: net.Cut('write failed') if n == k // 2 + 1 else None
        return r


class Run:
    def plan(self, who):
        """Operations of one party, in order: ('w', batch, last) / ('r', n)"""
        pend, out = 0, []
        for d, b, last, lazy in self.spec.steps:
            if d == who:
                out.append(('w', b, last))
            else:
                pend += len(b)
                n = max(0, pend - lazy)
                if n:
                    out.append(('r', n))
                pend -= n
        if pend:
            out.append(('r', pend))
        return out

    def make(self, who, E):
        cfg, sp = self.cfg, self.spec
        end = E(self.link, who)
        if sp.kind == 'a1':
            if who == 'c':
                return A1ClientSession(end)
            s = cfg.server(end)
            s.a2 = A2Packet(src_buf=ref.a2(sp.prots))
            return s
        if who == 'c':
            return cfg.client(end, wanted=bytes(31) + b'\x07' if sp.kind == 'nosuch' else None)
        return cfg.server(end)

    def note(self, who, s):
        st = {}
        for f in ('session_key', 'client_sig_key', 'is_done'):
            if getattr(s, f, None) is not None:
                v = getattr(s, f)
                st[f] = bytes(v).hex() if isinstance(v, (bytes, bytearray)) else v
        app = getattr(s, 'app_channel', None)
        st['last'] = bool(app.last) if app is not None else None
        if isinstance(s, A1ClientSession) and s.a2 is not None:
            st['a2'] = bytes(s.a2).hex()
        self.state[who] = st

    async def party(self, who):
        s = self.make(who, net.AsyncEnd)
        try:
            if self.spec.kind == 'a1':
                await (s.do_a1a2() if who == 'c' else s.handshake())
                return
            if self.spec.kind == 'abandon' and who == 'c':
                await asyncio.wait_for(s.handshake(), 5)
                return
            await s.handshake()
            for op in self.plan(who):
                if op[0] == 'w':
                    await s.app_channel.write(*op[1], is_last=op[2])
                else:
                    for _ in range(op[1]):
                        self.got[who].append(bytes(await s.app_channel.read()))
        finally:
            self.note(who, s)

    def party_sync(self, who):
        s = self.make(who, net.SyncEnd)
        try:
            if self.spec.kind == 'a1':
                (s.do_a1a2_sync if who == 'c' else s.handshake_sync)()
                return
            s.handshake_sync()
            for op in self.plan(who):
                if op[0] == 'w':
                    s.app_channel.write_sync(*op[1], is_last=op[2])
                else:
                    for _ in range(op[1]):
                        self.got[who].append(bytes(s.app_channel.read_sync()))
        finally:
            self.note(who, s)

    def signature(self, res):
        out = {}
        for w in 'cs':
            o = res[w]
            out[w] = (o.kind, (type(o.value).__name__, re.sub('0x[0-9a-f]+', '', str(o.value))) if o.kind == 'exc' else None)
            if o.kind == 'stuck' or o.kind == 'exc' and isinstance(o.value, net.Cut) and str(o.value) == 'end of stream':
                out[w] = 'no more data'              # whether the peer was seen to end first is up to the scheduler
            out['sent_' + w] = [m[0].hex() for m in self.link.sent[w]]
            out['got_' + w] = [m.hex() for m in self.got[w]]
            out['state_' + w] = self.state.get(w)
        out['cc'], out['sc'] = [list(x.log) if x else None for x in (self.cfg.cc, self.cfg.sc)]
        return out


def parties(runs):
    ps = {}
    for i, r in enumerate(runs):
        for w in 'cs':
            ps[(i, w)] = (lambda r=r, w=w: r.party(w))
    return ps


_solo = {}


def solo(mode, seed):
    k = (mode, seed)
    if k not in _solo:
        r = Spec(seed).start(None, 0)
        if mode == 'sync':
            res = net.run_threads(r.link, {'c': lambda: r.party_sync('c'), 's': lambda: r.party_sync('s')})
        else:
            res = net.run_async({'c': lambda: r.party('c'), 's': lambda: r.party('s')})
        _solo[k] = r.signature(res)
        if len(_solo) > 3000:
            _solo.clear()
            _solo[k] = r.signature(res)
    return _solo[k]


def compare(ctx, mode, seeds, sigs, runs, alone):
    for i, seed in enumerate(seeds):
        a, b = alone[i], sigs[i]
        sp = runs[i].spec
        ctx.ev('sessions_compared')
        ctx.ev('kind_' + sp.kind)
        if sp.kind in ('nosuch', 'garbage', 'refuse', 'tamper', 'wfail'):
            ctx.ev('failing_sessions')
        elif sp.kind == 'abandon':
            ctx.ev('abandoned_sessions')
        elif sp.kind == 'a1':
            ctx.ev('a1_sessions')
        ctx.case((mode, seed, tuple(seeds)))
        if sp.kind == 'echo' and (sp.steps[0][0] == 'c' or not runs[i].cfg.buf4):   # absolute: what a session does when nothing goes wrong is known
            ctx.ev('echo_sessions')
            for w, o in (('c', 's'), ('s', 'c')):
                want = [m.hex() for d, bb, _, _ in sp.steps if d == o for m in bb]
                if b[w][0] != 'ok' or b['got_' + w] != want:
                    ctx.violation('an honest session fails when others run or have run (%s): %s' % (mode, b[w]), key='%s-echo' % mode, session=seed, group=seeds,
                                  got=b['got_' + w], want=want)
                    return
        if a != b:
            diff = [k for k in a if a[k] != b[k]]
            ctx.violation('a session behaves differently when others run (%s): %s' % (mode, diff[:4]), key='%s-%s' % (mode, diff[:1]), session=seed, kind=sp.kind,
                          group=seeds, alone={k: a[k] for k in diff[:3]}, together={k: b[k] for k in diff[:3]})
            return


def mixed_traces(runs):
    return tuple((i, len(r.link.trace)) for i, r in enumerate(runs))


def tasks(ctx, rng, seeds):
    alone = [solo('async', s) for s in seeds]
    order = []
    runs = []
    for i, s in enumerate(seeds):
        r = Spec(s).start(rng, rng.choice([0, 1, 3, 6]))
        r.link.trace = Tagged(order, i)
        runs.append(r)
    res = net.run_async(parties(runs))
    ctx.ev('groups_tasks')
    ctx.state(('tasks', tuple(order[:400])))
    compare(ctx, 'tasks', seeds, [r.signature({w: res[(i, w)] for w in 'cs'}) for i, r in enumerate(runs)], runs, alone)


class Tagged(list):
    def __init__(self, order, i):
        self.order, self.i = order, i

    def append(self, x):
        super().append(x)
        self.order.append((self.i, x[0], x[1]))


def threads(ctx, rng, seeds, loops):
    """Every session in threads of its own: blocking API, or (loops) a private event loop."""
    mode = 'async' if loops else 'sync'
    alone = [solo(mode, s) for s in seeds]
    runs = [Spec(s).start(random.Random(rng.random()), rng.choice([0, 2])) for s in seeds]
    order = []
    for i, r in enumerate(runs):
        r.link.trace = Tagged(order, i)
    res = {}
    barrier = threading.Barrier(len(runs))
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))

    def body(i, r):
        barrier.wait()
        if loops:
            res[i] = net.run_async({'c': lambda: r.party('c'), 's': lambda: r.party('s')})
        else:
            res[i] = net.run_threads(r.link, {'c': lambda: r.party_sync('c'), 's': lambda: r.party_sync('s')})
    try:
        ts = [threading.Thread(target=body, args=x, daemon=True) for x in enumerate(runs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.ev('groups_loops' if loops else 'groups_threads')
    ctx.state((mode, tuple(order[:400])))
    if len(res) != len(runs):
        return ctx.violation('a session thread died', key='died')
    compare(ctx, 'loops' if loops else 'threads', seeds, [r.signature(res[i]) for i, r in enumerate(runs)], runs, alone)


def later(ctx, rng, seeds):
    """After a history of failing and abandoned sessions, fresh ones behave as in a fresh process."""
    for mode in ('async', 'sync'):
        for s in seeds[:3]:
            a = FIRST.get((mode, s))
            _solo.pop((mode, s), None)
            b = solo(mode, s)
            ctx.ev('later_sessions')
            if a is not None and a != b:
                diff = [k for k in a if a[k] != b[k]]
                ctx.violation('a session behaves differently after other sessions failed: %s' % diff[:4], key='later-%s' % diff[:1], session=s,
                              alone={k: a[k] for k in diff[:3]}, later={k: b[k] for k in diff[:3]})
                return
            ctx.case(('later', mode, s, ctx.caseno // 50))


FIRST = {}


def fresh(mode, seed):
    """The same in a process in which no other session has run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(solo(mode, seed)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(2500):
        base = ['%d-%d-f%d' % (ctx.seed, ctx.shard, i) for i in range(40)]
        for s in base:                       # the very first sessions of this process
            for mode in ('async', 'sync'):
                FIRST[(mode, s)] = fresh(mode, s)
        n = 0

        def group(lo, hi):
            nonlocal n
            k = rng.randrange(lo, hi)
            n += k
            return ['%d-%d-%d' % (ctx.seed, ctx.shard, n - j) for j in range(k)]
        for _ in range(ctx.scale(250, 2500)):
            tasks(ctx, rng, group(2, 12))
        for _ in range(ctx.scale(12, 80)):
            tasks(ctx, rng, group(30, 80))
        for _ in range(ctx.scale(50, 500)):
            threads(ctx, rng, group(2, 9), loops=False)
            threads(ctx, rng, group(2, 9), loops=True)
            later(ctx, rng, rng.sample(base, 3))
