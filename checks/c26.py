"""C26 EncryptedChannelV2 on its own is a secure channel bound to key, role and session nonce."""
from saltchannel.exceptions import BadPeer, ComException
from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role

import nacl.bindings as nb

from vlib import gen, net

PROP = 'C26'
BOOST = 3
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'channels': 2000, 'packets_sent': 10000, 'messages_delivered': 10000, 'foreign_packets_refused': 8000, 'bit_flips_refused': 3000,
           'session_nonces': 500, 'bad_keys': 200, 'truncations_refused': 500, 'recovered': 3000}
RULE = ('one evaluation = one pair of stand-alone encrypted channels with one key and session nonce and one history of writes, reads and attacks; every packet was '
        'decrypted independently with the nonce it has to have; distinct = distinct (key, session nonce, history)')


def nonce(value, sn):
    return value.to_bytes(8, 'little') + sn + bytes(8)


class End(net.ScriptEnd):
    """A one-sided transport: what is written is kept, what is read comes from the inbox."""


def seal(key, value, sn, clear, flags=0, typ=6):
    return bytes([typ, flags]) + nb.crypto_box_afternm(clear, nonce(value, sn), key)


def one(ctx, rng, d):
    key = rng.choice([rng.randbytes(32), rng.randbytes(32), bytes(32), b'\xff' * 32])
    r = rng.random()
    sn = bytes(8) if r < 0.3 else rng.choice([rng.randbytes(8), b'\x01' + bytes(7), bytes(7) + b'\x80', b'\xff' * 8])
    api = rng.choice(['sync', 'async'])
    ends, ch = {}, {}
    for who, role in (('c', Role.CLIENT), ('s', Role.SERVER)):
        ends[who] = End()
        if r < 0.15:
            ch[who] = EncryptedChannelV2(ends[who], key, role)
        elif r < 0.3:
            ch[who] = EncryptedChannelV2(ends[who], key, role, sn)
        else:
            ch[who] = EncryptedChannelV2(ends[who], key, role, session_nonce=sn)
        if ch[who].last_flag:
            return ctx.violation('last_flag is set before anything was read', key='last-initial')
    if sn != bytes(8):
        ctx.ev('session_nonces')
    ctx.ev('channels', 2)
    val = {'c': 1, 's': 2}
    if rng.random() < 0.15:
        # a channel that has been used for long: only if the counters can be reached
        far = rng.choice([2 ** 8, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 32, 2 ** 33, 2 ** 48, 2 ** 62]) - rng.randrange(0, 12) * 2
        try:
            ns = [(ch['c'].write_nonce, 1), (ch['s'].read_nonce, 1), (ch['s'].write_nonce, 2), (ch['c'].read_nonce, 2)]
            if all(gen.settable(n, v) for n, v in ns):
                for n, v in ns:
                    n.value = far + v
                val = {'c': far + 1, 's': far + 2}
                ctx.ev('far_counters')
        except AttributeError:
            pass
    flight = {'c': [], 's': []}          # towards that side: (packet, clear, last)
    old = {'c': [], 's': []}             # every genuine packet so far, by receiver
    hist = []
    info = dict(api=api, session_nonce=sn.hex(), history=hist)
    other = {'c': 's', 's': 'c'}
    for _ in range(rng.randrange(2, 12)):
        w = rng.choice('cs')
        to = other[w]
        r = rng.random()
        if r < 0.45:
            b = gen.batch(rng, 6, *rng.choice([(20, 5000), (300, 5000), (3000, 5000), (3000, 5000), (70000, 100000)]))
            if rng.random() < 0.002:
                b[0] = rng.randbytes(rng.choice([1 << 20, 1 << 21]) + rng.randrange(-40, 40))
                ctx.ev('huge_messages')
            last = rng.random() < 0.3
            base = len(ends[w].sent)
            hist.append((w, 'write', [len(m) for m in b], last))
            o = d.call(api, ch[w], 'write', *[gen.typed(rng, m) for m in b], is_last=last)
            if not o.ok:
                return ctx.fail_exc('write failed', o.value, key='write', **info)
            new = ends[w].sent[base:]
            if len(new) != len(b):
                return ctx.violation('%d packets for %d messages' % (len(new), len(b)), key='count', **info)
            for i, (raw, m) in enumerate(zip(new, b)):
                ctx.ev('packets_sent')
                fl = 0x80 if last and i == len(b) - 1 else 0
                if raw != seal(key, val[w], sn, m, fl):
                    return ctx.violation('packet is not the message encrypted under nonce %d with the session nonce' % val[w], key='wire', raw=raw, message=m, **info)
                val[w] += 2
                flight[to].append((raw, m, bool(fl)))
                old[to].append(raw)
        elif r < 0.75 or not flight[to]:
            if not flight[to]:
                continue
            raw, m, last = flight[to].pop(0)
            hist.append((to, 'read'))
            ends[to].inbox.append(raw)
            o = d.call(api, ch[to], 'read')
            if not o.ok or bytes(o.value) != m:
                return ctx.violation('a genuine packet is not delivered', key='deliver', outcome=repr(o), message=m, **info)
            if bool(ch[to].last_flag) != last:
                return ctx.violation('last_flag is not that of the packet read', key='last', **info)
            ctx.ev('messages_delivered')
            if hist[-2:-1] and hist[-2][1] == 'attack':
                ctx.ev('recovered')
        else:
            # something that is not the next genuine packet, then the genuine one
            good, m, last = flight[to][0]
            expect = val[w] - 2 * len(flight[to])
            how = rng.choice(['flip', 'flip', 'flip', 'trunc', 'extend', 'nonce', 'session', 'key', 'direction', 'future', 'old', 'reflect', 'short', 'type', 'zero', 'forge', 'forge'])
            if how == 'flip':
                p = bytearray(good)
                i = rng.randrange(16, 8 * len(good))
                p[i // 8] ^= 1 << (i % 8)
            elif how == 'trunc':
                p = good[:rng.randrange(2, len(good))]
            elif how == 'extend':
                p = good + rng.randbytes(rng.randrange(1, 20))
            elif how == 'nonce':
                v = rng.choice([expect + 1, expect - 1, expect + 2, expect + 2 ** 16, expect + 2 ** 32, expect ^ 256, 0])
                if v in (expect,) or v < 0:
                    continue
                p = seal(key, v, sn, m)
            elif how == 'session':
                s2 = bytearray(sn)
                s2[rng.randrange(8)] ^= 1 << rng.randrange(8)
                p = seal(key, expect, bytes(s2), m)
            elif how == 'key':
                k2 = bytearray(key)
                k2[rng.randrange(32)] ^= 1 << rng.randrange(8)
                p = seal(bytes(k2), expect, sn, m)
            elif how == 'direction':
                p = seal(key, expect + (1 if w == 'c' else -1), sn, m)
            elif how == 'future':
                if len(flight[to]) < 2:
                    continue
                p = rng.choice(flight[to][1:])[0]
            elif how == 'old':
                gone = old[to][:len(old[to]) - len(flight[to])]
                if not gone:
                    continue
                p = rng.choice(gone)
            elif how == 'reflect':
                if not old[w]:
                    continue
                p = rng.choice(old[w])
            elif how == 'short':
                p = b'\x06\x00' + rng.randbytes(rng.randrange(16))
            elif how == 'forge':
                n = rng.choice([16, 16, 17, 22, rng.randrange(0, 64)])
                p = bytes([6, rng.choice([0, 0x80, 0x80, 1, 0xff])]) + rng.choice([bytes(n), rng.randbytes(n), b'\xff' * n, (good[2:] * 9)[:n]])
                if p[2:] == good[2:]:
                    continue
            elif how == 'type':
                p = bytes([rng.choice([0, 1, 2, 5, 7, 0x86])]) + good[1:]
            else:
                p = b'\x06\x00' + bytes(len(good) - 2)
            hist.append((to, 'attack', how))
            ends[to].inbox.append(bytes(p))
            o = d.call(api, ch[to], 'read')
            if o.ok:
                return ctx.violation('a packet that is not the next genuine one is accepted (%s)' % how, key='accept-' + how, got=o.value, packet=bytes(p), **info)
            if o.kind != 'exc' or not isinstance(o.value, BadPeer):
                return ctx.fail_exc('a bad packet raises something else than BadPeer (%s)' % how, o.value, key='type-' + how, **info)
            ctx.ev('foreign_packets_refused')
            ctx.ev('bit_flips_refused' if how == 'flip' else 'truncations_refused' if how in ('trunc', 'short') else 'refused_' + how)
    o = d.call(api, ch['c'], 'read')
    if o.ok or not isinstance(o.value, ComException):
        return ctx.violation('read with nothing on the channel does not raise the error of the channel', key='empty', outcome=repr(o), **info)
    ctx.case((key, sn, api, tuple(map(str, hist))))


def keys(ctx, rng):
    n = rng.choice([0, 1, 16, 24, 31, 33, 64, rng.randrange(100)])
    if n == 32:
        return
    try:
        EncryptedChannelV2(End(), rng.randbytes(n), rng.choice([Role.CLIENT, Role.SERVER]))
    except ValueError:
        ctx.ev('bad_keys')
        ctx.case(('key', n))
        return
    except Exception as e:
        return ctx.fail_exc('a key of wrong size raises something else than ValueError', e, key='keysize', size=n)
    ctx.violation('a key of wrong size is accepted', key='keysize', size=n)


def run(ctx):
    rng = ctx.rng
    with ctx.cpu_guard(900), net.Driver() as d:
        for _ in range(ctx.scale(5000, 60000)):
            one(ctx, rng, d)
        for _ in range(ctx.scale(60, 300)):
            keys(ctx, rng)
