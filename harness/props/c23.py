"""Generator of wind records."""
import math

import numpy as np
from harness import gen

ID = 'C23'
N_QUICK, N_THOROUGH = 60, 1500
RULE = ('Random generators (mean and maximum speed, number of states, Weibull shape and scale, time step, duration, also repeated '
        'and non-divisible) produce records of up to 30000 entries, judged entry by entry and by their distribution; records '
        'are written, read back and used to run a model.')
ASSUMPTIONS = ['distribution judged within six batch standard errors plus the discretisation of the speed classes']


def case(rng, k):
    mean = round(rng.uniform(2, 15), 2)
    c = dict(seed=rng.randrange(2 ** 31), mode=('series', 'long', 'file')[k % 3], mean=mean,
             max=round(mean * rng.uniform(1.2, 5), 2), n=gen.pick(rng, 30, 30, 10, 60, 45, 7, 100, 33), dt=gen.pick(rng, 60., 10., 3600., 1., .1, 7.),
             shape=gen.pick(rng, 2., 2., 1.5, 2.5, 3.), k=rng.randint(0, 400))
    c['duration'] = gen.pick(rng, c['k'] * c['dt'], (c['k'] + .5) * c['dt'], round(rng.uniform(0, 300) * c['dt'], 3))
    # (many states and hardly any chance of the highest: the generator takes a minute to set up)
    c['max'] = min(c['max'], round(mean * (2.5 if c['n'] == 100 else 3.5 if c['n'] >= 45 else 5), 2))
    if c['mode'] == 'long':
        c['max'] = round(mean * rng.uniform(3, 4), 2)
        c['duration'] = 30000 * c['dt']
        c['n'] = gen.pick(rng, 30, 30, 60, 20)
    if rng.random() < .15:
        c.update(mean=9., max=30., n=30, shape=2., default=True)
    return c


def run(c, mon):
    from aeolis.model import WindGenerator
    np.random.seed(c['seed'])
    kw = dict(dt=c['dt']) if c.get('default') else dict(mean_speed=c['mean'], max_speed=c['max'], dt=c['dt'], n_states=c['n'], shape=c['shape'])
    w = WindGenerator(**kw)
    back = w.generate(duration=c['duration'])
    mon.check(back is w, 'chain', 'generate does not return the generator')
    t, u = w.get_time_series()
    series(mon, c, t, u, c['duration'])
    mon.check(np.array_equal(w[0:5], u[0:5]) and w[len(u) - 1] == u[-1], 'index', 'indexed speeds')
    # the same again from the same random state, and afresh every time
    v = w.generate(duration=c['duration'] / 2.).get_time_series()
    series(mon, c, v[0], v[1], c['duration'] / 2.)
    if c['mode'] != 'long':
        np.random.seed(c['seed'])
        w2 = WindGenerator(**kw).generate(duration=c['duration'])
        mon.check(np.array_equal(w2.get_time_series()[1], u), 'repeatable', 'record differs for the same random state')
    mon.ev('entries', len(u))
    mon.sig(c['mode'], c['n'], c['shape'], len(u) // 100, 'div' if c['duration'] % c['dt'] == 0 else '')
    if c['mode'] == 'long':
        long(mon, c, u)
    if c['mode'] == 'file':
        w.generate(duration=c['duration'])
        t, u = w.get_time_series()
        w.write_time_series('wind.txt')
        a = np.loadtxt('wind.txt', ndmin=2)
        mon.check(a.shape == (len(u), 3), 'file', lambda: 'shape of the file %s' % (a.shape,))
        if a.shape == (len(u), 3):
            mon.close(a[:, 0], t, 'file', rtol=1e-14, atol=0, msg='times in file')
            mon.close(a[:, 1], u, 'file', rtol=1e-14, atol=0, msg='speeds in file')
            mon.check(not a[:, 2].any(), 'file', 'directions in file')
        if len(u) > 2:
            from aeolis.model import AeoLiS
            b = dict(seed=c['seed'], nx=6, ny=0, dx=5., dy=1., rot=0., profile='flat', zoff=1., slope=.02, amp=.1, nf=1, nl=1, layer=.01,
                     grain='1d', wind='const', umax=1., udir=270., dt=c['dt'], steps=3, cfg={})
            cfg, arr = gen.build(b)
            arr.pop('wind')
            gen.write_arrays(arr, cfg)
            gen.write_config(cfg)
            m = AeoLiS('aeolis.txt')
            m.initialize()
            n = min(len(u) - 1, 3)
            for i in range(1, n):
                m.update()
                mon.close(m.s['uw'], np.interp(m.t - m.dt, t, u), 'used', rtol=1e-9, atol=1e-9, msg='wind of the model at entry %d' % i)


def series(mon, c, t, u, duration):
    n = len(u)
    mon.check(len(t) == n and n >= 1 and t[0] == 0, 'times', lambda: 'record of %d times and %d speeds from %r' % (len(t), n, t[0] if len(t) else None))
    mon.close(t, np.arange(n) * c['dt'], 'times', rtol=1e-12, atol=1e-12, msg='times of the record')
    slack = 1e-9 * max(duration, 1.)
    mon.check(t[-1] >= duration - slack and t[-1] <= duration + c['dt'] + slack, 'covers', lambda: 'record to %g for a duration of %g (step %g)' % (
        t[-1], duration, c['dt']))
    mon.check(bool(np.isfinite(u).all() and (u >= 0).all() and (u <= c['max'] * (1 + 1e-12)).all()), 'range', lambda: 'speeds from %g to %g, maximum %g' % (
        u.min(), u.max(), c['max']))


def long(mon, c, u):
    """Stationary distribution: the (truncated, binned) Weibull distribution."""
    k, lam = c['shape'], 2. * c['mean'] / math.sqrt(math.pi)
    u = u[200:]
    b = c['max'] / c['n']
    x = (np.arange(c['n']) + .5) * b
    f = k / lam * (x / lam) ** (k - 1) * np.exp(-(x / lam) ** k)
    f /= f.sum()
    nb = 50
    L = len(u) // nb

    def judge(stat, want, name, extra):
        m = np.array([stat(u[i * L:(i + 1) * L]) for i in range(nb)])
        se = m.std(ddof=1) / math.sqrt(nb)
        mon.check(abs(m.mean() - want) <= 6. * se + extra, 'distribution', lambda: '%s is %.4f (se %.4f), expected %.4f' % (name, m.mean(), se, want))
        mon.worst('z:' + name, abs(m.mean() - want) / (se + 1e-12))
    judge(np.mean, (f * x).sum(), 'mean speed', .002 * c['mean'])
    judge(lambda v: np.mean(v ** 2), (f * (x ** 2 + b ** 2 / 12)).sum(), 'mean square speed', .004 * c['mean'] ** 2)
    for q in (.1, .5, .9):
        j = int(np.searchsorted(np.cumsum(f), q))
        judge(lambda v: np.mean(v < (j + 1) * b), np.cumsum(f)[j], 'share below %d%%' % (100 * q), .002)
    # speeds change gradually
    d = np.abs(np.diff(u)).mean()
    s = np.random.RandomState(1).permutation(u)
    mon.check(d < .9 * np.abs(np.diff(s)).mean(), 'persistent', lambda: 'mean change %.3f between entries, %.3f between unordered entries' % (
        d, np.abs(np.diff(s)).mean()))


def warmup():
    gen.warmup()
