"""C16 Native memory is never accessed out of bounds."""
import json
import os
import shutil
import subprocess

from vlib import core

PROP = 'C16'
HANGS = False        # waits for sanitized processes
SHARDS = {'quick': 8, 'thorough': 8}
REQUIRE = {'canary_asan': 1, 'canary_valgrind': 1, 'asan_parsed': 10000, 'valgrind_parsed': 1000, 'asan_native': 10000, 'valgrind_native': 500,
           'asan_built': 3000, 'asan_sessions': 50, 'plain_native': 3000}
RULE = ('one evaluation = one call of the real code executed in a process observed by AddressSanitizer (malloc interposed, all heap blocks red-zoned), valgrind memcheck '
        '(every load and store, libsodium included) or the plain interpreter; distinct = distinct (observer, function, input)')
ASSUMPTIONS = ['CPython runs with PYTHONMALLOC=malloc under both sanitizers, so that each object is a heap block of its own.',
               'AddressSanitizer is preloaded: it checks interposed functions (memmove, memcpy, ...), not every load; valgrind checks every access.']

WORK = os.path.join(core.VERIF, 'vlib', 'memwork.py')


def asan_lib():
    for cc in ('gcc', 'clang'):
        try:
            p = subprocess.run([cc, '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        except OSError:
            continue
        if os.path.isabs(p) and os.path.exists(p):
            return os.path.realpath(p)
    return None


def command(mode, lib):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    base = [core.PY, '-B', WORK]
    if mode == 'asan':
        env.update(PYTHONMALLOC='malloc', LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:exitcode=97:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0')
    elif mode == 'valgrind':
        env.update(PYTHONMALLOC='malloc')
        base = ['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--exit-on-first-error=yes', '--read-var-info=no', '--vgdb=no'] + base
    return base, env


def go(mode, lib, args, timeout):
    cmd, env = command(mode, lib)
    try:
        p = subprocess.run(cmd + [str(a) for a in args], env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise core.Inconclusive('%s workload took more than %d s' % (mode, timeout))
    return p.returncode, p.stdout, p.stderr


def chunk(ctx, mode, lib, seed, n):
    rc, out, err = go(mode, lib, [mode, seed, n], 1500 if ctx.thorough else 600)
    events = None
    for line in out.splitlines():
        if line.startswith('EVENTS '):
            events = json.loads(line[7:])
        elif line.startswith('SEEN '):
            ctx.distinct.update(mode + x for x in line.split()[1:])
    if rc == 0 and events is not None:
        for k, v in events.items():
            ctx.ev('%s_%s' % (mode, k), v)
        ctx.evaluations += sum(events.get(k, 0) for k in ('parsed', 'built', 'native', 'sessions'))
        ctx.case((mode, seed, n, events), nontrivial=False)
        ctx.state((mode, seed, tuple(sorted(events.items()))))
        return
    text = err[-3000:]
    info = dict(observer=mode, seed=seed, exit_code=rc, output=out[:500], report=text)
    if rc == 66:
        ctx.violation('input buffer or result size corrupted: %s' % out.strip().splitlines()[-1], key='corrupt', **info)
    elif rc == 97 or rc == 98 or 'AddressSanitizer' in err:
        ctx.violation('%s reports an invalid memory access' % mode, key='%s-access' % mode, **info)
    elif rc < 0 or rc in (134, 139):
        ctx.violation('the interpreter was killed by signal %s (%s)' % (-rc if rc < 0 else rc - 128, mode), key='%s-signal' % mode, **info)
    elif 'Traceback' in err and '/saltchannel/' in err:
        # an exception of the code under test that is no memory error: other properties judge it; this workload cannot continue
        raise core.Inconclusive('%s workload ended with an exception: %s' % (mode, err[-800:]))
    else:
        raise core.Inconclusive('%s workload exit code %d: %s' % (mode, rc, err[-800:]))


def canary(ctx, mode, lib):
    """The observer must notice a real overflow, and must not object to the same copy of the right size."""
    rc, out, err = go(mode, lib, ['canary', 80, 0], 300)
    rc2, out2, err2 = go(mode, lib, ['canary', 64, 0], 300)
    if rc == 97 and rc2 == 0:
        ctx.ev('canary_' + mode)
    else:
        raise core.Inconclusive('%s does not work here: %d %d %s' % (mode, rc, rc2, (err + err2)[-400:]))


def run(ctx):
    lib = asan_lib()
    if lib is None or not shutil.which('valgrind'):
        raise core.Inconclusive('no AddressSanitizer runtime or no valgrind')
    if ctx.only(0):
        canary(ctx, 'asan', lib)
    if ctx.only(1):
        canary(ctx, 'valgrind', lib)
    base = '%d-%d' % (ctx.seed, ctx.shard)
    for i in range(ctx.scale(1, 20)):
        chunk(ctx, 'plain', lib, '%s-p%d' % (base, i), ctx.scale(1500, 6000))
        chunk(ctx, 'asan', lib, '%s-a%d' % (base, i), ctx.scale(1500, 6000))
    for i in range(ctx.scale(1, 12)):
        chunk(ctx, 'valgrind', lib, '%s-v%d' % (base, i), ctx.scale(150, 800))
