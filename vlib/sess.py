"""Building sessions of the real code, and decoding what they put on the wire with the reference implementation."""
import asyncio

from saltchannel.util.key_pair import KeyPair
from saltchannel.util.time import TimeKeeper, TimeChecker
from saltchannel.v2.salt_client_session import SaltClientSession
from saltchannel.v2.salt_server_session import SaltServerSession

from . import gen, net, ref


class Keeper(TimeKeeper):
    """Time keeper with a known sequence of values; records every value it handed out."""
    def __init__(self, first, values, log=None):
        self.first, self.values = first, values
        self.log = [] if log is None else log
        self.i = 0
        self.nfirst = 0

    def get_first_time(self):
        v = self.first(self.nfirst) if callable(self.first) else self.first
        self.nfirst += 1
        self.log.append(('first', v))
        return v

    def get_time(self):
        v = self.values(self.i)
        self.i += 1
        self.log.append(('time', v))
        return v


class Checker(TimeChecker):
    """Records what it is asked to check; refuses when told so."""
    def __init__(self, refuse=None):
        self.log = []
        self.refuse = refuse

    def report_first_time(self, time):
        self.log.append(('first', time))
        if self.refuse:
            e = self.refuse('first', len(self.log) - 1, time)
            if e:
                raise e

    def check_time(self, time):
        self.log.append(('time', time))
        if self.refuse:
            e = self.refuse('time', len(self.log) - 1, time)
            if e:
                raise e


class Cfg:
    """Keys and options of one client/server pair."""
    def __init__(self, rng, plain=False):
        self.csig = gen.keys(rng, 'sig')
        self.ssig = gen.keys(rng, 'sig')
        self.cenc = gen.keys(rng, 'enc')
        self.senc = gen.keys(rng, 'enc')
        self.want = (not plain) and rng.random() < 0.4
        self.buf4 = (not plain) and rng.random() < 0.4
        self.buf2 = (not plain) and rng.random() < 0.4
        self.explicit = rng.random() < 0.3
        self.ck = self.sk = self.cc = self.sc = None      # keepers / checkers; None: the default of the session

    def key(self):
        return (self.csig[1].hex()[:12], self.ssig[1].hex()[:12], self.cenc[1].hex()[:12], self.senc[1].hex()[:12],
                self.want, self.buf4, self.buf2)

    def options(self):
        return (self.want, self.buf4, self.buf2, self.ck is not None, self.sk is not None)

    @property
    def session_key(self):
        return ref.shared(self.cenc[0], self.senc[1])

    def client(self, ch, wanted=None, **kw):
        s = SaltClientSession(KeyPair(sec=self.csig[0], pub=self.csig[1]), ch, **kw)
        s.enc_keypair = KeyPair(sec=self.cenc[0], pub=self.cenc[1])
        if self.buf4 or self.explicit:        # otherwise what the session does by itself
            s.buffer_M4 = self.buf4
        if wanted is not None:
            s.wanted_server_sig_key = wanted
        elif self.want:
            s.wanted_server_sig_key = self.ssig[1]
        if self.ck is not None:
            s.time_keeper = self.ck
        if self.cc is not None:
            s.time_checker = self.cc
        return s

    def server(self, ch, **kw):
        s = SaltServerSession(KeyPair(sec=self.ssig[0], pub=self.ssig[1]), ch, **kw)
        s.enc_keypair = KeyPair(sec=self.senc[0], pub=self.senc[1])
        if self.buf2 or self.explicit:
            s.buffer_m2 = self.buf2
        if self.sk is not None:
            s.time_keeper = self.sk
        if self.sc is not None:
            s.time_checker = self.sc
        return s


def raw(v):
    """bytes of an attribute of a session; None if it is not bytes-like"""
    try:
        return bytes(v)
    except Exception:
        return None


def agreed(cfg, client, server):
    """Problems with what the two sessions believe after a handshake; [] if they agree with the truth."""
    bad = []
    k = cfg.session_key
    if raw(client.session_key) != k:
        bad.append('client session_key')
    if raw(server.session_key) != k:
        bad.append('server session_key')
    if raw(server.client_sig_key) != cfg.csig[1]:
        bad.append('client_sig_key')
    if raw(getattr(client.m3, 'ServerSigKey', None)) != cfg.ssig[1]:
        bad.append('m3.ServerSigKey')
    if client.app_channel is None or server.app_channel is None:
        bad.append('app_channel')
    return bad


class Wire:
    """Everything one direction put on the wire, decoded strictly with the reference implementation."""
    def __init__(self):
        self.hello = None        # fields of M1 / M2
        self.auth = None         # fields of M4 / M3
        self.packets = []        # (time, [messages], last flag, kind) of application packets
        self.problem = None


def random_times(cfg, rng):
    """Give the two sessions time keepers of various kinds."""
    for side in ('ck', 'sk'):
        r = rng.random()
        if r < 0.4:
            continue
        if r < 0.5:
            k = Keeper(1, lambda i: i + 2)
        elif r < 0.6:
            k = Keeper(lambda i: min(i, 1), lambda i: i + 2)       # answers differently when it is asked again
        elif r < 0.8:
            base = gen.times(rng)
            k = Keeper(1, lambda i, b=base: min(2 ** 31 - 1, b + 7 * i))
        else:
            k = Keeper(0, lambda i: 0)
        setattr(cfg, side, k)


def decode(cfg, sent, who, hello_other=None):
    """sent: raw messages of party who ('c' or 's'), in order. Never raises: problems are reported in .problem"""
    w = Wire()
    sec = ref.Secure(cfg.session_key, 'client')
    sec.rn = 1 if who == 'c' else 2
    i = 0
    try:
        for i, raw in enumerate(sent):
            if i == 0:
                w.hello = ref.d_m1(raw) if who == 'c' else ref.d_m2(raw)
                if w.hello['used'] != len(raw):
                    raise ref.Bad('trailing bytes')
                if who == 'c' and w.hello['flags'] not in (0, 1) or who == 's' and w.hello['flags']:
                    raise ref.Bad('header bits')
                w.hello['raw'] = raw
                continue
            clear = sec.open(raw)
            flags = raw[1]
            if flags & 0x7f:
                raise ref.Bad('reserved header bits')
            if i == 1:
                w.auth = ref.d_m4(clear) if who == 'c' else ref.d_m3(clear)
                if len(clear) != 102 or w.auth['flags']:
                    raise ref.Bad('M3/M4 size or header')
                w.auth['last'] = bool(flags)
                continue
            if clear[1]:
                raise ref.Bad('reserved header bits of an app packet')
            t, msgs = ref.d_appdata(clear)
            w.packets.append((t, [bytes(m) for m in msgs], bool(flags), clear[0]))
    except (ref.Bad, IndexError) as e:
        w.problem = 'message %d from %s: %s: %s' % (i, who, e, bytes(sent[i])[:80].hex())
    return w


def transcript(cfg, sent_c, sent_s):
    """Signature problems of a recorded handshake, checked with the true identity keys."""
    wc, ws = decode(cfg, sent_c, 'c'), decode(cfg, sent_s, 's')
    bad = []
    if wc.problem:
        bad.append(wc.problem)
    if ws.problem:
        bad.append(ws.problem)
    if not bad and wc.auth and ws.auth:
        h = ref.sha512(wc.hello['raw']) + ref.sha512(ws.hello['raw'])
        if wc.auth['sigkey'] != cfg.csig[1] or not ref.verify(wc.auth['sig'], ref.SIG2 + h, cfg.csig[1]):
            bad.append('M4 signature')
        if ws.auth['sigkey'] != cfg.ssig[1] or not ref.verify(ws.auth['sig'], ref.SIG1 + h, cfg.ssig[1]):
            bad.append('M3 signature')
    return wc, ws, bad


class Pair:
    """Two real sessions on one instrumented link, driven step by step from a single coroutine."""
    def __init__(self, cfg, rng, jitter=0):
        self.cfg, self.rng = cfg, rng
        self.link = net.Link(rng, jitter)
        self.expect = {'c': [], 's': []}     # messages each side still has to read, in order
        self.all = {'c': [], 's': []}        # everything ever written towards each side
        self.got = {'c': [], 's': []}        # (object returned by read, expected bytes)
        self.nread = {'c': 0, 's': 0}

    async def up(self, first=None, **kw):
        """Handshake; with buffer_M4 the first client write is part of it. first: messages of that write."""
        self.c = self.cfg.client(net.AsyncEnd(self.link, 'c'))
        self.s = self.cfg.server(net.AsyncEnd(self.link, 's'))
        t = asyncio.ensure_future(self.s.handshake())
        try:
            await self.c.handshake()
            if self.cfg.buf4 or first is not None:
                await self.write('c', first if first is not None else [b'first'], **kw)
            await t
        finally:
            if not t.done():
                t.cancel()
        return self

    def app(self, side):
        return (self.c if side == 'c' else self.s).app_channel

    async def write(self, side, msgs, is_last=None):
        """msgs: list of bytes-like objects. Bookkeeping first: the expectation is what was passed."""
        want = [bytes(m) for m in msgs]
        to = 's' if side == 'c' else 'c'
        kw = {} if is_last is None else {'is_last': is_last}
        await self.app(side).write(msgs[0], *msgs[1:], **kw)
        self.expect[to].extend(want)
        self.all[to].extend(want)

    async def read(self, side):
        m = await self.app(side).read()
        self.nread[side] += 1
        return m

    def raw(self, who):
        return [m[0] for m in self.link.sent[who]]


def run1(coro_fn):
    """Run one coroutine function on a monitored loop -> Outcome"""
    return net.run_async({'x': coro_fn})['x']
