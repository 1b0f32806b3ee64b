"""The time loop of the runner."""
import hashlib
import os
import shutil

import numpy as np
from harness import gen, trace

ID = 'C21'
N_QUICK, N_THOROUGH = 120, 2400
RULE = ('Random complete runs started from other directories, with callbacks given as functions, references in the call or in '
        'the configuration (valid and invalid), parameters changed before the run, hotstart files (known, unknown), exceptions in '
        'callbacks, the built-in default configuration; calls, steps, files and working directory are recorded and compared with '
        'a plain model stepped by hand.')
ASSUMPTIONS = ['callbacks given by reference live in the directory of the model']
MODES = ('function', 'string', 'config', 'plain', 'params', 'hotstart', 'hotstart', 'bad', 'raises', 'default')
HOT = ('zb', 'Ct', 'moist', 'zs', 'rhoveg', 'mass', 'uth', 'ustar', 'Hs', 'salt', 'thlyr')

HOOK = '''
import numpy as np
def %s(model):
    with open('calls.log', 'a') as fp:
        fp.write('%%r %%d\\n' %% (model.t, model.get_count('time')))
    zb = model.get_var('zb', clear=False)
    zb[:, :2] += %r
    model.set_var('zb', zb)
def decoy(model):
    raise ValueError('wrong function')
'''


class Broken(Exception):
    pass


def case(rng, k):
    c = gen.base_case(rng)
    c['mode'] = MODES[k % len(MODES)]
    c['nx'] = min(c['nx'], 16)
    c['ny'] = min(c['ny'], 4)
    c['dt'] = gen.pick(rng, 1., 10., 60., 300.)
    c['steps'] = rng.randint(1, 9)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'calm', 'const')
    cfg = {}
    if rng.random() < .4:
        cfg.update(process_tide=True, process_wave=True)
        c['series'] = {'tide': [.3, 1., 3.], 'wave': [1., 6.]}
    cfg['process_avalanche'] = rng.random() < .3
    if rng.random() < .3:
        cfg['tstart'] = 40.
        cfg['tstop'] = 40. + c['dt'] * (c['steps'] + .5)
    if rng.random() < .3:
        cfg['tstop'] = cfg.get('tstart', 0.) + c['dt'] * c['steps']     # ends exactly on a step
    c['cfg'] = cfg
    c['where'] = gen.pick(rng, 'here', 'below', 'beside', 'above')
    c['path'] = gen.pick(rng, 'relative', 'absolute')
    c['lift'] = round(rng.uniform(-.05, .05), 4)
    c['raise_at'] = rng.randint(0, c['steps'])
    c['fn'] = gen.pick(rng, 'callback', 'my_hook', 'f')
    c['change'] = gen.pick(rng, 'Cb', 'porosity', 'tstop', 'grain')
    c['hot'] = rng.sample(HOT, rng.randint(1, 3))
    c['unknown'] = rng.random() < .5
    return c


def digest(d='.'):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, d)] = hashlib.md5(fp.read()).hexdigest()
    return out


def by_hand(lift=0., imm=None, hot=None):
    """The same model stepped without the runner, in the current directory."""
    from aeolis.model import AeoLiS
    m = AeoLiS('aeolis.txt')
    m.initialize()
    for k, v in (hot or {}).items():
        m.s[k] = v.copy()
        m.s.set_immutable(k)
    out = [(m.t, trace.snap(m.s))]
    while m.t <= m.p['tstop']:
        if lift:
            zb = m.get_var('zb')
            zb[:, :2] += lift
            m.set_var('zb', zb)
        m.update()
        out.append((m.t, trace.snap(m.s)))
    return out


def agree(mon, s, ref, kind, tag):
    bad = []
    for k, v in ref.items():
        if k == 'q' or k not in s or not isinstance(v, np.ndarray) or v.dtype.kind not in 'fciub':
            continue
        if v.shape != np.shape(s[k]) or not np.allclose(np.asarray(s[k], float), np.asarray(v, float), rtol=1e-10, atol=1e-12, equal_nan=True):
            bad.append(k)
    mon.check(not bad, kind, lambda: '%s: %s differ from the model stepped by hand' % (tag, bad[:8]))


def run(c, mon):
    from aeolis.model import AeoLiSRunner
    home = os.getcwd()
    mode = c['mode']
    if mode == 'default':
        return default(c, mon)
    d = {'here': home, 'below': os.path.join(home, 'model'), 'beside': os.path.join(home, 'other', 'model'),
         'above': os.path.join(home, 'model')}[c['where']]
    start = {'beside': os.path.join(home, 'elsewhere'), 'above': os.path.join(d, 'scripts')}.get(c['where'], home)
    os.makedirs(d, exist_ok=True)
    os.makedirs(start, exist_ok=True)
    os.chdir(d)
    cfg, arr = gen.build(c)
    lift = 0.
    arg = None
    seen = []
    if mode in ('string', 'config'):
        lift = c['lift']
        with open('hook.py', 'w') as fp:
            fp.write(HOOK % (c['fn'], lift))
        ref = 'hook.py:%s' % c['fn']
        if mode == 'config':
            cfg['callback'] = ref
        else:
            arg = ref
    hot = {}
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    if mode == 'hotstart':
        from aeolis.model import AeoLiS
        m = AeoLiS('aeolis.txt')
        m.initialize()
        r = np.random.RandomState(c['seed'] % (2 ** 31))
        for k in c['hot']:
            v = m.s[k]
            lo, hi = {'zb': (0, 2), 'uth': (.1, .4), 'zs': (-3, 0)}.get(k, (0, .5))
            hot[k] = r.uniform(lo, hi, v.shape).round(6)
            np.savetxt(k + '.hotstart', hot[k].reshape((v.shape[0], -1)) if r.rand() < .5 else hot[k].flatten())
        if c['unknown']:
            np.savetxt('nothing.hotstart', np.zeros(3))
    if mode in ('function', 'raises'):
        lift = c['lift']
    if mode == 'params':
        shutil.copytree(d, os.path.join(home, 'copy'))
    ref = by_hand(lift, hot=hot) if mode != 'params' else None
    for f in os.listdir('.'):
        if f == 'calls.log':
            os.remove(f)
    before = digest()
    os.chdir(start)
    conf = os.path.join(d, 'aeolis.txt')
    if c['path'] == 'relative':
        conf = os.path.relpath(conf, start)

    class Runner(AeoLiSRunner):
        steps = 0
        order = []

        def update(self, dt=-1):
            super(Runner, self).update(dt)
            self.steps += 1
            states.append((self.t, trace.snap(self.s)))
            dirs.add(os.getcwd())
            mon.ev('steps')

    states, dirs = [], set()

    def hook(m):
        seen.append((m.t, m.steps))
        dirs.add(os.getcwd())
        if mode == 'raises' and len(seen) - 1 == c['raise_at']:
            raise Broken()
        if lift:
            zb = m.get_var('zb', clear=False)
            zb[:, :2] += lift
            m.set_var('zb', zb)
    if mode in ('function', 'raises', 'plain', 'hotstart', 'params'):
        arg = hook if mode in ('function', 'raises') or c['seed'] % 2 else None
    m = Runner(conf)
    mon.check(os.getcwd() == start, 'directory', 'constructing a runner changes the working directory')
    if mode == 'bad':
        try:
            m.run(callback=('nothere.py:f', os.path.join(home, 'none', 'x.py:f'))[c['seed'] % 2])
            err = None
        except Exception as e:
            err = e
        mon.check(isinstance(err, IOError), 'bad-callback', lambda: 'callback in a file that does not exist gives %r' % err)
        mon.check(not states, 'bad-callback', 'steps were made')
        mon.sig('bad', c['where'])
        return
    if mode == 'params':
        return params(c, mon, m, cfg, d, start, arg, states, home)
    try:
        m.run(callback=arg)
        broken = False
    except Broken:
        broken = True
        mon.ev('broken off')
    mon.check(broken == (mode == 'raises' and c['raise_at'] < len(ref) - 1), 'exception', 'exception of the callback %s' % (
        'surfaced unexpectedly' if broken else 'was swallowed'))
    if broken:
        mon.check(len(states) == c['raise_at'], 'exception', 'steps were made after the exception')
    else:
        mon.check(os.getcwd() == start, 'directory', lambda: 'run leaves the working directory at %s instead of %s' % (os.getcwd(), start))
        mon.check([t for t, _ in states] == [t for t, _ in ref[1:]], 'times', lambda: 'run steps to %s, by hand %s' % (
            [t for t, _ in states][-4:], [t for t, _ in ref][-4:]))
        tstop = cfg['tstop']
        mon.check(m.t > tstop and (len(states) == 1 or states[-2][0] <= tstop), 'ends', lambda: 'run to %g ends at %g' % (tstop, m.t))
    mon.check(all(os.path.realpath(x) == os.path.realpath(d) for x in dirs), 'directory', lambda: 'steps made in %s' % dirs)
    os.chdir(d)
    if arg is hook:
        n = len(states)
        mon.check([x[1] for x in seen] == list(range(n + broken)), 'callback-order', lambda: 'callback called before steps %s of %d' % (
            [x[1] for x in seen][:12], n))
        mon.check([x[0] for x in seen] == [t for t, _ in ref[:n + broken]], 'callback-order', 'times at which the callback was called')
    if mode in ('string', 'config'):
        log = [l.split() for l in open('calls.log')] if os.path.exists('calls.log') else []
        mon.check([float(a) for a, _ in log] == [t for t, _ in ref[:-1]] and [int(b) for _, b in log] == list(range(len(ref) - 1)),
                  'callback-order', lambda: 'callback called at %s, steps from %s' % ([a for a, _ in log][:6], [t for t, _ in ref[:6]]))
        mon.ev('callbacks', len(log))
    for (t, s), (u, q) in zip(states, ref[1:]):
        if t == u:
            agree(mon, s, q, 'evolution', 'at %g' % t)
    if hot:
        for k in hot:
            bad = [t for t, s in states if not np.array_equal(s[k], hot[k])]
            mon.check(not bad, 'hotstart', lambda: '%s from hotstart file changed at %s' % (k, bad[:3]))
    after = digest()
    changed = [f for f in before if after.get(f) != before[f]]
    mon.check(not changed, 'inputs-kept', lambda: 'run changed or removed %s' % changed)
    new = sorted(f for f in set(after) - set(before) if not f.startswith('__pycache__') and f != 'calls.log')
    mon.check(new == ['aeolis.log', 'aeolis.nc'], 'outputs', lambda: 'run created %s' % new)
    with open('aeolis.log') as fp:
        text = fp.read()
    mon.check(not text or 'AeoLiS' in text or 'Version' in text, 'log', 'log file of the run')
    mon.sig(mode, c['where'], c['path'], 'broken' if broken else '', len(hot))


def params(c, mon, m, cfg, d, start, arg, states, home):
    """Parameters changed in the runner before the run are used and written, the old configuration is kept."""
    new = {'Cb': {'Cb': 2.5}, 'porosity': {'porosity': .3}, 'tstop': {'tstop': cfg['tstop'] + 2 * c['dt']},
           'grain': {'grain_size': [x * 1.25 for x in cfg['grain_size']]}}[c['change']]
    with open(os.path.join(d, 'aeolis.txt')) as fp:
        old = fp.read()
    m.set_params(**new)
    m.run(callback=arg)
    mon.check(os.getcwd() == start, 'directory', 'working directory after the run')
    os.chdir(d)
    kept = [f for f in os.listdir('.') if f.startswith('aeolis.txt~') and open(f).read() == old]
    mon.check(len(kept) == 1, 'params-backup', 'configuration before the change is lost')
    # nothing is written again unless something changed again
    have = sorted(os.listdir('.'))
    write = getattr(m, 'write_params', None)
    if write is not None:
        write()
        mon.check(sorted(os.listdir('.')) == have, 'params-backup', lambda: 'unchanged parameters leave %s' % sorted(set(os.listdir('.')) - set(have)))
    os.chdir(os.path.join(home, 'copy'))
    gen.write_config(dict(cfg, **new))
    ref = by_hand()
    mon.check([t for t, _ in states] == [t for t, _ in ref[1:]], 'times', lambda: 'run with changed %s steps to %s, expected %s' % (
        c['change'], [t for t, _ in states][-3:], [t for t, _ in ref][-3:]))
    for (t, s), (u, q) in zip(states, ref[1:]):
        if t == u:
            agree(mon, s, q, 'evolution', 'with changed %s at %g' % (c['change'], t))
    os.chdir(d)
    from aeolis import inout
    p = inout.read_configfile('aeolis.txt')
    for k, v in new.items():
        mon.check(np.allclose(p[k], v, rtol=1e-12), 'params-written', lambda: '%s is %r in the configuration written, set %r' % (k, p[k], v))
    second = by_hand()
    mon.check([t for t, _ in second] == [t for t, _ in ref], 'params-written', 'written configuration gives another run')
    agree(mon, second[-1][1], ref[-1][1], 'params-written', 'run of the written configuration')
    mon.sig('params', c['change'], c['where'], c['path'])


def default(c, mon):
    from aeolis.model import AeoLiSRunner
    home = os.getcwd()
    old = None
    if c['seed'] % 3 == 0:
        old = '% precious\nnx = 3\n'
        with open('aeolis.txt', 'w') as fp:
            fp.write(old)
    word = ('DEFAULT', 'default', 'Default')[c['seed'] % 3 if False else (c['seed'] // 3) % 3]
    seen = []
    m = AeoLiSRunner(word)
    m.set_params(tstop=3. * 60)
    m.run(callback=lambda q: seen.append(q.t))
    mon.check(os.getcwd() == home, 'directory', 'working directory after the default run')
    mon.check(len(seen) == 4 and m.t > 180., 'default-run', lambda: 'default run has %d steps to %g' % (len(seen), m.t))
    mon.check(os.path.exists('aeolis.txt') and os.path.exists('aeolis.nc'), 'default-run', 'no files written')
    if old:
        kept = [f for f in os.listdir('.') if f.startswith('aeolis.txt~') and open(f).read() == old]
        mon.check(len(kept) == 1, 'params-backup', 'configuration in place is lost')
    z, x = m.s['zb'], m.s['x']
    mon.check(z.shape == (1, 100) and np.allclose(np.diff(x), 1.), 'default-run', 'grid of the default run')
    ref = by_hand()
    agree(mon, m.s, ref[-1][1], 'default-run', 'configuration written by the default run')
    mon.sig('default', word, 'old' if old else '')


warmup = gen.warmup
