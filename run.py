#!/opt/venv/bin/python
"""run.py CNN             run one check (tier from VERIF_TIER, seed from VERIF_SEED)
   run.py --replay FILE   re-run the shard that produced a violation
   run.py --all           run all checks one after another"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402


def load(prop):
    core.setup_paths()
    return importlib.import_module('checks.' + prop.lower())


def known_findings():
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                parts = line.split(None, 3)   # known: property=<id> key=<key> <text>
                res.append((parts[1].split('=', 1)[1], parts[2].split('=', 1)[1], parts[3].strip()))
    return res


def shard_env(mod):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1')
    env.pop('PYTHONPATH', None)
    env.update(getattr(mod, 'ENV', {}))
    return env


def not_importable(prop, tier, seed, e, t0):
    """The package, or a public name of it, is not there any more: nothing the property promises can be had."""
    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    sys.stderr.write(text)
    frames = traceback.extract_tb(e.__traceback__)
    inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(core.REPO) + os.sep) for f in frames)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
                   'coverage': {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': 'import of the package', 'samples': [text[-300:]]},
                   'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': int(inside)}, f, indent=1)
    if not inside:
        print('INCONCLUSIVE property=%s the harness does not load: %s' % (prop, str(e)[:300]))
        return 2
    path = os.path.join(evdir, 'replay-%s-0.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'violation': {'what': 'import fails', 'key': 'import', 'shard': 0, 'detail': {'traceback': text}}}, f, indent=1)
    print('%s: the package cannot be imported: %s' % (prop, str(e)[:200]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def run_check(prop, tier, seed, only_shard=None):
    t0 = time.time()
    try:
        mod = load(prop)
    except Exception as e:
        return not_importable(prop, tier, seed, e, t0)
    n = mod.SHARDS[tier]
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    limit = getattr(mod, 'WALL', {'quick': 780, 'thorough': 7200})[tier]
    procs = []
    try:
        for i in range(n):
            if only_shard is not None and i != only_shard:
                continue
            out = os.path.join(scratch, 'o%d.json' % i)
            err = open(os.path.join(scratch, 'e%d' % i), 'w+')
            d = os.path.join(scratch, 'w%d' % i)
            os.mkdir(d)
            p = subprocess.Popen([core.PY, '-B', os.path.join(HERE, 'run.py'), '--shard', prop, tier, str(seed), str(i), str(n), out],
                                 cwd=d, stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=shard_env(mod), start_new_session=True)
            procs.append((i, p, out, err))
        res, problems = [], []
        deadline = t0 + limit
        for i, p, out, err in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                problems.append('shard %d: wall-clock watchdog (%d s)' % (i, limit))
                continue
            finally:
                try:
                    os.killpg(p.pid, 9)      # whatever the shard left behind
                except OSError:
                    pass
            err.seek(0)
            text = err.read()
            if text.strip():
                sys.stderr.write(text[-6000:] + ('' if text.endswith('\n') else '\n'))
            if not os.path.exists(out):
                crash = getattr(mod, 'on_crash', None)
                v = crash(p.returncode, text) if crash else None
                if v is None and -p.returncode in (4, 6, 7, 8, 11):      # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
                    v = {'what': 'the interpreter crashed (signal %d) while running the code under test' % -p.returncode, 'key': 'crash', 'detail': {'stderr': text[-1500:]}}
                if v:
                    res.append({'status': 'ok', 'counters': {}, 'distinct': [], 'states': [], 'evaluations': 0, 'samples': [],
                                'violations': [dict(v, shard=i, case=0)]})
                else:
                    problems.append('shard %d: died with exit code %s' % (i, p.returncode))
                continue
            r = json.load(open(out))
            if r['status'] != 'ok':
                problems.append('shard %d: %s' % (i, r['status']))
            res.append(r)
    finally:
        for i, p, out, err in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            err.close()
        shutil.rmtree(scratch, ignore_errors=True)

    counters, distinct, states, samples, viol = {}, set(), set(), [], []
    for r in res:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r['distinct'])
        states.update(r['states'])
        samples.extend(r['samples'][:2])
        viol.extend(r['violations'])
    evals = sum(r['evaluations'] for r in res)
    known = [k for k in known_findings() if k[0] == prop]
    seen_known = [k for k in known if any(v['key'] == k[1] for v in viol)]
    viol = [v for v in viol if not any(v['key'] == k[1] for k in known)]
    if only_shard is None:
        for name, least in mod.REQUIRE.items():
            if counters.get(name, 0) < least:
                problems.append('monitor %r observed %d events, at least %d expected' % (name, counters.get(name, 0), least))
    wall = time.time() - t0
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                       'samples': samples[:6] or ['none'], 'observed_events': dict(sorted(counters.items())),
                       'distinct_states_or_interleavings': len(states), 'shards': len(res)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if problems:
        ev['coverage']['inconclusive'] = [p[-400:] for p in problems]
    if only_shard is None:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    if viol:
        seen = set()
        n = 0
        for v in viol:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            path = os.path.join(evdir, 'replay-%s-%d.json' % (prop, n))
            n += 1
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'violation': v}, f, indent=1, default=str)
            print('%s: %s' % (prop, v['what']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if n >= 5:
                break
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE property=%s %s' % (prop, p))
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d states=%d wall=%.1fs' % (
        prop, tier, seed, evals, len(distinct), len(states), wall))
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == '--shard':
        prop, tier, seed, shard, n, out = a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6]
        core.setup_paths()
        core.shard_main(load(prop), tier, seed, shard, n, out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    if a[0] == '--replay':
        r = json.load(open(a[1]))
        sys.exit(run_check(r['property'], r['tier'], r['seed'], only_shard=r['violation']['shard']))
    if a[0] == '--all':
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        sys.exit(max(run_check(c['property'], tier, seed) for c in man['checks']))
    sys.exit(run_check(a[0], tier, seed))


if __name__ == '__main__':
    main()
