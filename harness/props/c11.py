"""Avalanching."""
import numpy as np
from harness import gen, trace, rt

ID = 'C11'
N_QUICK, N_THOROUGH = 110, 2000
RULE = ('Random over- and under-steepened beds (piles, walls, pits, ridges, noise; above and below datum; with and without '
        'a non-erodible floor) in 1-D and 2-D models under a wind too weak for transport, repose angles from 15 to 45 '
        'degrees, mirrored twins; monitors on every avalanching pass and over the whole step.')
ASSUMPTIONS = ['cell sizes of 1 m and more (the relaxation used by the code is not stable on finer grids)']


def case(rng, k):
    c = gen.base_case(rng, nf=1, nl=1, layer=.05, grain='1d', wind='const', profile='flat')
    c['nx'] = rng.randint(10, 24)
    if c['ny']:
        c['ny'] = rng.randint(6, 14)
    c['dx'] = gen.pick(rng, 1., 1., 1.5, 2.)
    c['dy'] = gen.pick(rng, 1., c['dx'], 2.)
    c['umax'] = round(rng.uniform(1., 3.), 2)
    c['dt'] = 1.
    c['steps'] = rng.randint(1, 3)
    st = round(rng.uniform(15, 45), 1)
    cfg = dict(process_avalanche=True, theta_stat=st, theta_dyn=round(st - gen.pick(rng, .5, 1., 3.), 1), max_iter_ava=20000)
    c['shape'] = gen.pick(rng, 'pile', 'wall', 'pit', 'noise', 'gentle', 'ridge', 'border')
    c['h'] = round(rng.uniform(.5, 3.), 2)
    c['zoff'] = round(gen.pick(rng, rng.uniform(-6, 6), rng.uniform(-6, 6), 0.), 2)
    c['floor'] = gen.pick(rng, None, None, None, 'deep', 'thin')
    if rng.random() < .12:
        cfg['process_avalanche'] = False
    c['scale'] = gen.pick(rng, None, None, 'between', 'just')
    c['mirror'] = gen.pick(rng, None, 'x', 'y' if c['ny'] else 'x')
    if c['floor']:
        cfg['th_nelayer'] = True
        cfg['ne_file'] = 'ne.txt'
    c['cfg'] = cfg
    return c


def bed(c):
    r = np.random.RandomState(c['seed'] + 3)
    X, Y = np.meshgrid(np.arange(c['nx'] + 1) * c['dx'], np.arange(c['ny'] + 1) * c['dy'])
    z = np.zeros(X.shape)
    h, sh = c['h'], c['shape']
    nx, ny = c['nx'], c['ny']
    if sh in ('pile', 'pit'):
        i = r.randint(nx // 3, 2 * nx // 3 + 1)
        j = r.randint(ny // 3, 2 * ny // 3 + 1) if ny else 0
        w = r.randint(0, 2)
        z[max(j - w, 0):j + w + 1, i - w:i + w + 1] = h if sh == 'pile' else -h
    elif sh == 'wall':
        z = h * (X > X.max() * r.uniform(.4, .6)) * 1.
    elif sh == 'ridge':
        z = h * 2 * np.exp(-((X - X.max() / 2) / (.1 * X.max())) ** 2) * (1 + .2 * np.sin(Y))
    elif sh == 'noise':
        z = h * r.uniform(0, .6, X.shape)
    elif sh == 'gentle':
        z = .3 * np.tan(np.deg2rad(c['cfg']['theta_stat'])) * c['dx'] * r.uniform(0, 1, X.shape)
    elif sh == 'border':
        z[:, :2] = h
        z[-1:, :] = h
    if c.get('scale'):
        # slopes between the dynamic and the static angle of repose, or just above the latter
        g = slope(z, c['dx'], c['dy'] if ny else 1.).max()
        st, dy = np.tan(np.deg2rad(c['cfg']['theta_stat'])), np.tan(np.deg2rad(c['cfg']['theta_dyn']))
        if g > 0:
            z = z * (dy + (st - dy) * r.uniform(.1, .9) if c['scale'] == 'between' else st * r.uniform(1.01, 1.1)) / g
    return (c['zoff'] + z).round(9)


def slope(z, ds, dn):
    """Steepest descent per axis to a direct neighbour (border cells take no part)."""
    g = np.zeros(z.shape)
    gx = np.zeros(z.shape)
    gx[:, 1:-1] = np.maximum(0, np.maximum(z[:, 1:-1] - z[:, :-2], z[:, 1:-1] - z[:, 2:])) / ds
    if z.shape[0] == 1:
        return gx
    gy = np.zeros(z.shape)
    gy[1:-1] = np.maximum(0, np.maximum(z[1:-1] - z[:-2], z[1:-1] - z[2:])) / dn
    g = np.hypot(gx, gy)
    g[[0, -1], :] = 0
    g[:, [0, -1]] = 0
    return g


def make(c, z, ne):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    arr['bed'] = z
    if ne is not None:
        arr['ne'] = ne
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def settles(c, mon, z, ne, ds, dn, td):
    """The slide ends as soon as no slope exceeds the dynamic angle of repose: more passes change nothing."""
    def passes(n):
        m = make(dict(c, cfg=dict(c['cfg'], max_iter_ava=n)), z, ne)
        m.update()
        return m.s['zb'].copy()
    full = passes(20000)
    lo, hi = 0, 2048
    scale = 1e-9 * (1. + abs(z).max())
    while hi - lo > 1:
        n = (lo + hi) // 2
        zn = passes(n)
        if slope(zn, ds, dn).max() < td * (1 - 1e-12):
            mon.ev('slides cut short')
            mon.close(zn, full, 'settled', rtol=0, atol=scale, msg='bed after %d passes (no slope above the dynamic angle) and after the whole slide' % n)
            hi = n
        else:
            lo = n


def run(c, mon):
    z = bed(c)
    r = np.random.RandomState(c['seed'] + 9)
    ne = None
    if c['floor'] == 'deep':
        ne = z - 50.
    elif c['floor'] == 'thin':
        ne = z - r.uniform(-.2 if c['seed'] % 2 else 0, .6, z.shape).round(4)
    m = make(c, z, ne)
    p = m.p
    ds, dn = c['dx'], c['dy'] if c['ny'] else 1.
    ts, td = np.tan(np.deg2rad(p['theta_stat'])), np.tan(np.deg2rad(p['theta_dyn']))
    free = c['floor'] != 'thin'
    if c['seed'] % 3 == 0 and p['process_avalanche'] and slope(z, ds, dn).max() > ts * (1 + 1e-9):
        settles(c, mon, z, ne, ds, dn, td)
    with trace.Tracer({'avalanche': ('zb',)}) as tr:
        for i in range(c['steps']):
            z0 = m.s['zb'].copy()
            g0 = slope(z0, ds, dn)
            m.update()
            z1 = m.s['zb'].copy()
            g1 = slope(z1, ds, dn)
            d = z1 - z0
            tag = 'step %d' % i
            mon.ev('steps')
            if m.get_var('pickup').any():
                mon.note('transport took place')
                return
            scale = 1e-9 * (1. + abs(z0).max())
            mon.finite(z1, 'finite', 'bed level %s' % tag)
            for st, b, a, _ in tr.take():
                mon.close(a['zb'] - b['zb'], d, 'only-avalanching', rtol=0, atol=scale, msg='bed level changed outside of avalanching %s' % tag)
            if not p['process_avalanche']:
                mon.check(not d.any(), 'off', 'bed moves with avalanching disabled')
                mon.sig('off')
                continue
            if g0.max() <= ts * (1 - 1e-12):
                mon.check(not d.any(), 'stable', lambda: 'bed with slope %.4f below the static repose slope %.4f moves by %g' % (
                    g0.max(), ts, abs(d).max()))
                mon.sig('stable', '2d' if c['ny'] else '1d', c['shape'])
                continue
            # conservation: nothing is created; nothing is lost unless the slide reaches the border
            inner = abs(d)
            near = np.zeros(z0.shape, bool)
            near[:, :2] = near[:, -2:] = True
            if c['ny']:
                near[:2] = near[-2:] = True
            mon.check(d.sum() <= scale * d.size, 'no-gain', lambda: 'avalanching creates %g m of bed %s' % (d.sum(), tag))
            if not (inner[near] > 0).any():
                mon.check(abs(d.sum()) <= scale * d.size, 'conserve', lambda: 'volume changes by %g m of bed away from the border %s' % (d.sum(), tag))
                mon.sig('conserve')
            # range: sand only moves down
            mon.check(z1.max() <= z0.max() + scale and z1.min() >= z0.min() - scale, 'within-range', lambda: 'bed %g..%g from %g..%g %s' % (
                z1.min(), z1.max(), z0.min(), z0.max(), tag))
            if free:
                mon.check(g1.max() <= td * (1 + 1e-9), 'repose', lambda: 'slope %.5f left, dynamic repose slope %.5f, initially %.3f %s' % (
                    g1.max(), td, g0.max(), tag))
                mon.check(d.any(), 'acts', 'slope %.4f above the static repose slope %.4f stays' % (g0.max(), ts))
            else:
                bare = z0 <= ne
                mon.check((d[bare] >= -scale).all(), 'floor', lambda: 'non-erodible bed lowered by %g %s' % (-d[bare].min(), tag))
                mon.check((z1 >= np.minimum(z0, ne) - .1).all(), 'floor', lambda: 'bed %g below the floor %s' % ((np.minimum(z0, ne) - z1).max(), tag))
            mon.sig(c['shape'], '2d' if c['ny'] else '1d', c['floor'], 'below' if z0.min() < 0 else 'above', 'stat%d' % int(p['theta_stat'] // 10))
    if c['mirror'] and p['process_avalanche'] and c['shape'] != 'noise':
        fl = (lambda a: a[:, ::-1]) if c['mirror'] == 'x' else (lambda a: a[::-1])
        m2 = make(c, fl(z), fl(ne) if ne is not None else None)
        for i in range(c['steps']):
            m2.update()
        mon.close(fl(m2.s['zb']), m.s['zb'], 'mirror', rtol=0, atol=2e-3 * (1 + c['h']), msg='mirrored bed')


warmup = gen.warmup
