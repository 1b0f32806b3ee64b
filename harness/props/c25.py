"""Command line."""
import os
import re
import subprocess
import sys

import numpy as np
from harness import gen, rt
from harness.props.c21 import HOOK, digest

ID = 'C25'
N_QUICK, N_THOROUGH = 70, 1000
RULE = ('Random command lines: runs of random models (from other directories, with callbacks, with restart files, of broken or '
        'absent configurations) compared with the same run through the library; wind records with random options; examples copied to '
        'new, nested and occupied directories; deprecated calls. In process through the application object, some in a process of '
        'their own.')
ASSUMPTIONS = ['exit status 0 means success']
MODES = ('run', 'run', 'wind', 'callback', 'restart', 'wind', 'examples', 'fails', 'old', 'process')


def case(rng, k):
    mode = MODES[k % len(MODES)]
    if mode == 'process' and k % 20 != 9:
        mode = 'wind'
    c = gen.base_case(rng)
    c['mode'] = mode
    c['nx'] = min(c['nx'], 14)
    c['ny'] = min(c['ny'], 4)
    c['dt'] = gen.pick(rng, 10., 60.)
    c['steps'] = rng.randint(2, 7)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'const')
    c['cfg'] = dict(output_vars=['zb', 'Ct', 'mass', 'zb_avg'], process_avalanche=rng.random() < .3)
    c['where'] = gen.pick(rng, 'here', 'below')
    c['opt'] = dict(mean=gen.pick(rng, None, round(rng.uniform(3, 14), 1)), max=gen.pick(rng, None, round(rng.uniform(16, 45), 1)),
                    duration=gen.pick(rng, None, rng.randint(100, 40000), rng.randint(50000, 400000)), timestep=gen.pick(rng, None, rng.randint(5, 600)))
    c['lift'] = round(rng.uniform(.01, .05), 3)
    c['which'] = rng.randrange(100)
    return c


def call(args):
    """-> (exit status, output) of the application in this process."""
    from typer.testing import CliRunner
    from aeolis.console import aeolis_app
    o, e = sys.stdout, sys.stderr
    r = CliRunner().invoke(aeolis_app, args)
    sys.stdout, sys.stderr = o, e
    return r.exit_code, r.output, r.exception


def contents(fn):
    import netCDF4
    with netCDF4.Dataset(fn) as nc:
        nc.set_auto_mask(False)
        return {k: np.array(v[:]) for k, v in nc.variables.items()}


def same(mon, a, b, kind, tag, last=False):
    bad = [k for k in b if k not in a or (a[k].shape != b[k].shape and not last) or
           not np.array_equal(a[k][-1:] if last and k in ('zb', 'Ct', 'mass') else a[k] if not last else 0,
                              b[k][-1:] if last and k in ('zb', 'Ct', 'mass') else b[k] if not last else 0, equal_nan=True)]
    mon.check(not bad, kind, lambda: '%s: %s differ' % (tag, bad))


def run(c, mon):
    home = os.getcwd()
    mode = c['mode']
    if mode == 'wind':
        return wind(c, mon)
    if mode == 'examples':
        return examples(c, mon)
    if mode == 'old':
        return old(c, mon)
    d = home if c['where'] == 'here' else os.path.join(home, 'a', 'model')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    cfg, arr = gen.build(c)
    hook = mode == 'callback' or (mode == 'restart' and c['seed'] % 2 == 0)
    if hook:
        with open('hook.py', 'w') as fp:
            fp.write(HOOK % ('lift', c['lift']))
    if mode == 'restart':
        cfg['restart'] = c['dt']
        if hook and c['which'] % 2:
            cfg['callback'] = 'hook.py:lift'
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    from aeolis.model import AeoLiSRunner
    args = ['run', os.path.relpath(os.path.join(d, 'aeolis.txt'), home) if c['seed'] % 2 else os.path.join(d, 'aeolis.txt')]
    if mode == 'fails':
        errors = ('KeyError', 'ValueError', 'IndexError', 'IOError', 'RuntimeError', 'AttributeError', 'MemoryError', 'AssertionError')
        n = c['seed'] % min(c['steps'], 3)
        with open('bad.py', 'w') as fp:
            # callbacks that fail, in whatever way, at some step
            fp.write('n = []\n' + ''.join('def f%s(model):\n    n.append(1)\n    if len(n) > %d:\n        raise %s("broken")\n' % (e, n, e) for e in errors))
        for extra in [['--callback', 'bad.py:f' + e] for e in errors] + [['--callback', 'nothing.py:f'], ['--restart', 'nothing.r0000000001'], 'not there', 'no grid']:
            a = list(args)
            if extra == 'not there':
                a[1] = 'not_there.txt'
            elif extra == 'no grid':
                os.remove(os.path.join(d, 'x.txt'))
            else:
                a += extra
            os.chdir(home)
            rc, out, exc = call(a)
            os.chdir(home)
            mon.check(rc != 0, 'fails', lambda: 'command %s reports success' % (a,))
            mon.ev('failing commands')
            mon.sig('fails', extra)
        return
    m = AeoLiSRunner('aeolis.txt')
    m.run(callback='hook.py:lift' if hook and 'callback' not in cfg else None)
    t_end = m.t
    ref = contents('aeolis.nc')
    if os.path.exists('calls.log'):
        os.rename('calls.log', 'calls.ref')
    os.rename('aeolis.nc', 'ref.nc')
    os.chdir(home)
    if hook and 'callback' not in cfg:
        args = args[:1] + (['--callback', 'hook.py:lift'] + args[1:] if c['which'] % 2 else args[1:] + ['--callback', 'hook.py:lift'])
    f = None
    if mode == 'restart':
        rs = sorted(x for x in os.listdir(d) if x.startswith('aeolis.r') and x[8:].isdigit())[:-1]
        if not rs:
            return
        f = rs[c['which'] % len(rs)]
        args += ['--restart', f]
    before = digest(d)
    if mode == 'process':
        env = dict(os.environ, PYTHONPATH=rt.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, '-c', 'from aeolis.console import start_aeolis_app; start_aeolis_app()'] + args, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out, exc = p.returncode, p.stdout.decode(errors='replace'), None
        mon.check('100' in out or rc, 'progress', 'no progress shown') if False else None
        mon.ev('processes')
    else:
        rc, out, exc = call(args)
    mon.check(os.getcwd() == home, 'directory', 'command leaves the working directory at %s' % os.getcwd())
    os.chdir(home)
    mon.check(rc == 0, 'succeeds', lambda: '%s exits with %r: %r %s' % (args, rc, exc, out[-300:]))
    mon.check('ABSOLUTELY NO WARRANTY' in out, 'license', 'no license notice')
    if rc:
        return
    os.chdir(d)
    mon.check(os.path.exists('aeolis.nc'), 'output', 'no output in the directory of the model')
    got = contents('aeolis.nc')
    if mode == 'restart':
        t0 = int(f[-10:])
        mon.check(abs(got['time'][0] - t0) < 1. and got['time'][-1] == ref['time'][-1], 'restart', lambda: 'resumed from %g runs over %s' % (t0, got['time']))
        same(mon, got, ref, 'restart', 'output of the resumed run' + (' with callback' if hook else ''), last=True)
    else:
        same(mon, got, ref, 'output', 'output of the command')
    if mode == 'callback':
        mon.check(open('calls.log').read() == open('calls.ref').read(), 'callback', 'calls of the callback differ')
        mon.check(len(open('calls.log').readlines()) >= c['steps'], 'callback', 'callback not called')
    after = digest(d)
    touched = [x for x in before if after.get(x) != before[x] and x != 'aeolis.log' and not x.startswith('aeolis.r')]
    mon.check(not touched, 'inputs-kept', lambda: 'command changed %s' % touched)
    mon.sig(mode, c['where'], '2d' if c['ny'] else '1d', t_end // 100)


def wind(c, mon):
    o = c['opt']
    args = ['wind', 'my wind.txt']
    extra = []
    for k, v in o.items():
        if v is not None:
            extra += ['--%s' % k, str(v)]
    args = args + extra if c['which'] % 2 else args[:1] + extra + args[1:]
    if c['which'] % 3 == 0:
        np.savetxt('my wind.txt', np.full((90000 // max(o['timestep'] or 60, 1) + 900, 3), 55.))       # of an earlier call
    np.random.seed(c['seed'] % (2 ** 31))
    rc, out, exc = call(args)
    if not mon.check(rc == 0, 'succeeds', lambda: '%s exits with %r: %r' % (args, rc, exc)):
        return
    from aeolis.model import WindGenerator
    mean, mx, dur, dt = [o[k] if o[k] is not None else v for k, v in (('mean', 10.), ('max', 30.), ('duration', 3600), ('timestep', 60))]
    a = np.loadtxt('my wind.txt', ndmin=2)
    mon.check(a.shape[1] == 3 and a[0, 0] == 0 and (len(a) == 1 or np.allclose(np.diff(a[:, 0]), dt)), 'wind', 'times of the record')
    mon.check(dur <= a[-1, 0] < dur + dt, 'wind', lambda: 'record to %g for a duration of %g with step %g' % (a[-1, 0], dur, dt))
    mon.check(a[:, 1].min() >= 0 and a[:, 1].max() <= mx, 'wind', lambda: 'speeds from %g to %g, maximum %g' % (a[:, 1].min(), a[:, 1].max(), mx))
    mon.check(not a[:, 2].any(), 'wind', 'directions')
    np.random.seed(c['seed'] % (2 ** 31))
    w = WindGenerator(mean_speed=mean, max_speed=mx, dt=dt)
    w.generate(duration=dur)
    t, u = w.get_time_series()
    mon.close(a[:, 1], u, 'wind', rtol=1e-12, atol=1e-12, msg='speeds of the record and the generator')
    num = {k: float(v) for k, v in re.findall(r'^(min|mean|max)\s*:\s*([0-9.]+)', out, re.M)}
    mon.check(set(num) == {'min', 'mean', 'max'} and abs(num['min'] - u.min()) < 6e-4 and abs(num['mean'] - u.mean()) < 6e-4 and abs(num['max'] - u.max()) < 6e-4,
              'wind-report', lambda: 'reported %s' % num)
    mon.sig('wind', *[k for k, v in sorted(o.items()) if v is not None])


def examples(c, mon):
    import aeolis
    src = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
    if not os.path.isdir(os.path.join(src, '2D', 'Parabolic_dune')):
        mon.note('no examples shipped')
        return
    dest = ('ex', 'a/b/c', '.', os.path.abspath('abs'))[c['which'] % 4]
    if c['which'] % 8 > 5:
        # a directory of the user with the name of an example
        own = os.path.join(dest, 'aeolis-examples', 'Parabolic_dune')
        os.makedirs(own)
        if c['seed'] % 2:
            with open(os.path.join(own, 'aeolis.txt'), 'w') as fp:
                fp.write('mine\n')
        call(['examples', dest])
        mon.check(not c['seed'] % 2 or open(os.path.join(own, 'aeolis.txt')).read() == 'mine\n', 'examples-kept', 'examples overwrite the work of the user')
        mon.sig('examples occupied')
        return
    rc, out, exc = call(['examples', dest])
    mon.check(rc == 0, 'succeeds', lambda: 'examples exits with %r: %r' % (rc, exc))
    for a, b in (('2D/Parabolic_dune', 'Parabolic_dune'), ('sandengine_small_grids', 'sandengine_small_grids')):
        t = os.path.join(dest, 'aeolis-examples', b)
        x, y = digest(os.path.join(src, a)), digest(t) if os.path.isdir(t) else {}
        mon.check(x == y and x, 'examples', lambda: 'example %s copied incompletely' % b)
        mon.ev('files', len(y))
    marker = os.path.join(dest, 'aeolis-examples', 'Parabolic_dune', 'aeolis.txt')
    with open(marker, 'a') as fp:
        fp.write('% mine\n')
    rc, out, exc = call(['examples', dest])
    mon.check(open(marker).read().endswith('% mine\n'), 'examples-kept', 'examples overwrite the work of the user')
    mon.sig('examples', c['which'] % 4)


def old(c, mon):
    from aeolis import console
    argv = sys.argv
    gen.write_case(c)
    for fn, args in ((console.start_aeolis_app, ['aeolis', 'aeolis.txt']), (console.start_aeolis_wind_app, ['aeolis-wind', 'wind2.txt'])):
        sys.argv = args
        try:
            fn()
            code = 0
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = argv
        mon.check(code not in (0, None), 'deprecated', lambda: '%s exits with %r' % (args[0], code))
    mon.check(not os.path.exists('aeolis.nc') and not os.path.exists('wind2.txt'), 'deprecated', 'deprecated call does something')
    mon.sig('old')


def warmup():
    gen.warmup()
