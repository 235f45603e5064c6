"""Machinery shared by all checks: sharding, counters, verdicts, evidence, replay files.

A check is a module checks/cNN.py with
    PROP      property id
    SHARDS    {'quick': n, 'thorough': n}
    REQUIRE   {counter: minimum}    - merged counters below the minimum make the run inconclusive (exit 2)
    RULE      text for the evidence file
    run(ctx)  the workload of one shard
"""
import hashlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
PY = '/opt/venv/bin/python'
MAX_VIOLATIONS = int(os.environ.get('VERIF_MAXV', '3'))


def setup_paths(stub=True):
    """Import saltchannel from the repository's working tree; never from anywhere else."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if stub:
        try:
            import tweetnacl.raw  # noqa: F401  (the real extension, if it is installed)
        except ImportError:
            sys.path.append(os.path.join(VERIF, 'stubs'))
    import warnings
    warnings.simplefilter('ignore', DeprecationWarning)
    warnings.simplefilter('ignore', ResourceWarning)
    import logging
    logging.getLogger('asyncio').setLevel(logging.CRITICAL)
    import saltchannel
    got = os.path.dirname(os.path.dirname(os.path.abspath(saltchannel.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError('saltchannel imported from %s, not %s' % (got, REPO))


class Stop(BaseException):
    """Enough violations were seen in this shard."""


class NonTermination(BaseException):
    """One small case used a CPU budget thousands of times above its normal cost."""


class Inconclusive(Exception):
    pass


def short(x, n=96):
    if isinstance(x, (bytes, bytearray, memoryview)):
        h = bytes(x[:n // 2]).hex()
        return h if len(x) <= n // 2 else '%s..(%d bytes)' % (h, len(x))
    if isinstance(x, dict):
        return {str(k): short(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        r = [short(v, n) for v in x[:12]]
        if len(x) > 12:
            r.append('..(%d items)' % len(x))
        return r
    if isinstance(x, (int, float, bool, type(None))):
        return x
    s = str(x)
    return s if len(s) <= 4 * n else s[:4 * n] + '..'


class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards):
        self.prop, self.tier, self.seed, self.shard, self.nshards = prop, tier, seed, shard, nshards
        self.rng = random.Random('%s/%d/%d' % (prop, seed, shard))
        self.counters = {}
        self.distinct = set()
        self.states = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.caseno = 0
        self._part = 0
        self.t0 = time.time()
        self.inconclusive = []
        self._lock = threading.RLock()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else min(thorough, quick * self.boost)

    def mine(self, i):
        """Static partition of an enumerated space over the shards."""
        return i % self.nshards == self.shard

    def share(self, items):
        """This shard's part of an enumerated list (a different phase for every call)."""
        self._part += 1
        return [x for i, x in enumerate(items) if (i + self._part) % self.nshards == self.shard]

    def only(self, part):
        """True in exactly one shard: for workloads that need not be repeated."""
        return part % self.nshards == self.shard

    def ev(self, name, n=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def state(self, key):
        """A distinct observed state / interleaving / transcript."""
        with self._lock:
            self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def case(self, key, nontrivial=True):
        with self._lock:
            self.caseno += 1
            self.evaluations += 1
            if nontrivial:
                self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())
            if len(self.samples) < 2 or (len(self.samples) < 4 and self.caseno in (50, 500)):
                self.samples.append(str(key)[:300])

    def violation(self, what, key=None, **detail):
        with self._lock:
            v = {'what': what, 'key': key or what, 'case': self.caseno, 'shard': self.shard, 'detail': short(detail, 400)}
            if not any(o['key'] == v['key'] for o in self.violations):
                self.violations.append(v)
                sys.stderr.write('shard %d case %d: %s %s\n' % (self.shard, self.caseno, what, json.dumps(v['detail'], default=str)[:1500]))
            if len(self.violations) >= MAX_VIOLATIONS:
                raise Stop()

    def check(self, cond, what, key=None, **detail):
        self.ev('oracle_evaluations')
        if not cond:
            self.violation(what, key, **detail)
        return bool(cond)

    def fail_exc(self, what, exc, key=None, **detail):
        tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]
        self.violation('%s: %s' % (what, type(exc).__name__), key=key, exception=repr(exc)[:300], traceback=tb, **detail)

    def cpu_guard(self, seconds=40):
        return CpuGuard(self, seconds)


class CpuGuard:
    """Non-termination verdict on CPU time (not wall-clock, so machine load does not matter)."""
    def __init__(self, ctx, seconds):
        self.ctx, self.seconds = ctx, seconds if ctx.thorough else min(seconds, 400)

    def __enter__(self):
        def on(sig, frm):
            raise NonTermination('no result after %d s of CPU time' % self.seconds)
        signal.signal(signal.SIGVTALRM, on)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, et, e, tb):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if et is NonTermination:
            self.ctx.violation('does not terminate', key='nontermination',
                               traceback=''.join(traceback.format_exception(et, e, tb))[-1500:])
            return True
        return False


_finished = threading.Lock()


def finish(ctx, status, out):
    """Write the result of the shard, once."""
    _finished.acquire()
    with open(out + '.tmp', 'w') as f:
        json.dump({'status': status, 'counters': dict(ctx.counters), 'distinct': sorted(ctx.distinct.copy()),
                   'states': sorted(ctx.states.copy()), 'evaluations': ctx.evaluations,
                   'samples': list(ctx.samples), 'violations': list(ctx.violations)}, f, default=str)
    os.replace(out + '.tmp', out)


HANG = 240       # seconds without any event of any monitor, while the process hardly uses the processor
GRACE = 120      # seconds a shard goes on after its first violation


def watch(ctx, out, hang):
    """Runs beside the workload: a call that never returns is an observation too, and must not keep the others from being reported."""
    def mark():
        return (ctx.caseno, ctx.evaluations, sum(list(ctx.counters.values())), len(ctx.states), len(ctx.violations))

    def cpu():
        t = os.times()
        return t.user + t.system + t.children_user + t.children_system
    last, since, used, first = mark(), time.monotonic(), cpu(), None
    while True:
        time.sleep(3)
        now = time.monotonic()
        if ctx.violations and first is None:
            first = now
        if first is not None and now - first > GRACE:
            finish(ctx, 'ok', out)
            os._exit(0)
        m = mark()
        # the time another process of the machine may have taken is not counted: any event or a few seconds of own processor time restart the clock
        if m != last or cpu() - used > 8:
            last, since, used = m, now, cpu()
        elif hang and now - since > HANG:
            stacks = []
            for f in list(sys._current_frames().values()):
                stacks.append(''.join(traceback.format_stack(f))[-700:])
            v = {'what': 'a call never returned: no event for %d s while the process was idle' % HANG, 'key': 'hang', 'case': ctx.caseno, 'shard': ctx.shard,
                 'detail': {'stacks': stacks[:6], 'cases_before': ctx.caseno}}
            ctx.violations.append(v)
            sys.stderr.write('shard %d case %d: %s\n%s\n' % (ctx.shard, ctx.caseno, v['what'], '\n'.join(stacks)[-3000:]))
            finish(ctx, 'ok', out)
            os._exit(0)


def shard_main(mod, tier, seed, shard, nshards, out):
    ctx = Ctx(mod.PROP, tier, seed, shard, nshards)
    ctx.boost = getattr(mod, 'BOOST', 1)      # fast checks do more in the quick tier
    status = 'ok'
    threading.Thread(target=watch, args=(ctx, out, getattr(mod, 'HANGS', True)), daemon=True, name='verif-watch').start()
    try:
        mod.run(ctx)
    except Stop:
        pass
    except NonTermination as e:
        try:
            ctx.violation('does not terminate', key='nontermination', traceback=traceback.format_exc()[-1500:])
        except Stop:
            pass
    except Inconclusive as e:
        status = 'inconclusive: %s' % e
    except BaseException as e:
        # an exception that comes from inside the code under test, in a use the harness expects to work, is an observation, not a harness error
        roots = tuple(os.path.realpath(d) + os.sep for d in (REPO, VERIF))
        frames = [f for f in (os.path.realpath(x.filename) for x in traceback.extract_tb(e.__traceback__)) if f.startswith(roots)]
        if isinstance(e, Exception) and frames and frames[-1].startswith(roots[0]):
            try:
                ctx.fail_exc('valid use fails', e, key='unexpected-' + type(e).__name__)
            except Stop:
                pass
        else:
            status = 'harness error: ' + traceback.format_exc()[-3000:]
    finish(ctx, status, out)
