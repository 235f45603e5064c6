"""C21 Back-end selection, key generation and random bytes follow the request."""
import itertools
import json
import os
import subprocess

from vlib import core

PROP = 'C21'
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'processes': 100, 'getlib': 1000, 'operations': 1000, 'random_calls': 10000, 'key_pairs': 2000, 'bit_columns': 10000, 'backend_random': 2000, 'forks': 40}
RULE = ('one evaluation = one fresh process with one configuration (available back ends, requested back end and generator, way of calling) in which all operations were '
        'executed with spies on every back end; distinct = distinct configurations (and repetitions with other random inputs)')
ASSUMPTIONS = ['The tweetnacl extension is not installed here: where it counts as available, a stand-in with the same API (stubs/tweetnacl) is used.']


def configs():
    out = []
    for lib, impl, off in itertools.product(['best', 'native', 'pynacl', 'tweetnacl'], [False, True],
                                            [[], ['native'], ['pynacl'], ['native', 'pynacl'], ['tweetnacl'], ['native', 'tweetnacl'], ['native', 'pynacl', 'tweetnacl']]):
        out.append(dict(lib=lib, impl=impl, off=off, stub=True, sodium=True))
    for lib, impl in itertools.product(['best', 'native', 'pynacl', 'tweetnacl'], [False, True]):
        out.append(dict(lib=lib, impl=impl, off=[], stub=False, sodium=True))       # tweetnacl really missing
        out.append(dict(lib=lib, impl=impl, off=[], stub=True, sodium=False))       # libsodium really missing
        out.append(dict(lib=lib, impl=impl, off=[], stub=False, sodium=False))
    for i, c in enumerate(out):
        c['how'] = ['mixed', 'keywords', 'positional'][i % 3]
    return out


def run(ctx):
    rng = ctx.rng
    fresh = {}
    for rep in range(ctx.scale(2, 20)):
        for c in ctx.share(configs()):
            c = dict(c, seed=rng.random(), rounds=ctx.scale(2, 6), keys=ctx.scale(120, 400))
            if rep:
                c['how'] = rng.choice(['mixed', 'keywords', 'positional'])
            p = subprocess.run([core.PY, '-B', os.path.join(core.VERIF, 'vlib', 'libwork.py'), json.dumps(c)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            ctx.ev('processes')
            ctx.case((c['lib'], c['impl'], c['off'], c['stub'], c['sodium'], c['how'], rep))
            lines = [x for x in p.stdout.splitlines() if x.startswith('REPORT ')]
            if p.returncode or not lines:
                ctx.violation('a process with this configuration fails', key='crash', config=c, exit=p.returncode, stderr=p.stderr[-1500:])
                continue
            r = json.loads(lines[0][7:])
            for k, n in r['n'].items():
                ctx.ev(k, n)
            ctx.state((c['lib'], c['impl'], sorted(c['off']), c['stub'], c['sodium'], sorted(r['n'].items())))
            for what, info in r['problems']:
                ctx.violation(what, key=what, config=c, **{'w_' + k: v for k, v in info.items()})
            for x in r['fresh']:
                if x in fresh:
                    ctx.violation('two processes got the same random value', key='fresh-process', value=x)
                fresh[x] = 1
