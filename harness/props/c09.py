"""Computational grid: cell sizes, orientation, and independence of the world orientation of the grid."""
import numpy as np
from harness import gen, rt

ID = 'C09'
N_QUICK, N_THOROUGH = 120, 2000
RULE = ('Twin runs of the real model: the same 2-D beach described in an axis-aligned and in a turned grid (wind turned '
        'along), over grid angles of all supported quadrants, wind shear, vegetation, tide and avalanching on or off, '
        'skipped and completed steps, restarts from imposed grids; plus 1-D grids with uneven spacing.')
ASSUMPTIONS = ['grid angles between -90 and 90 or 180 and 270 degrees (the others are announced as unsupported)']

VEC = (('uws', 'uwn'), ('ustars', 'ustarn'), ('taus', 'taun'), ('taus0', 'taun0'))
SCA = ('zb', 'ustar', 'tau', 'uw', 'Ct', 'Cu', 'pickup', 'mass', 'uth', 'u', 'rhoveg', 'hveg', 'w', 'dzb', 'zs', 'ustar0', 'tau0')


def case(rng, k):
    one = k % 6 == 5
    c = gen.base_case(rng, '1d' if one else '2d', grain=gen.pick(rng, '1d', 'bedcomp'), wind=gen.pick(rng, 'const', 'turn', 'gust'))
    c['steps'] = rng.randint(2, 5)
    if one:
        c['stretch'] = gen.pick(rng, 1., round(rng.uniform(.85, 1.15), 3))
        c['cfg'] = dict(process_shear=False)
        return c
    c['theta'] = round(gen.pick(rng, rng.uniform(-89, 89), rng.uniform(-60, 60), rng.uniform(181, 269), 90.), 3)
    c['umax'] = round(rng.uniform(8, 22), 2)
    c['udir'] = round(rng.uniform(0, 360), 2) + .003
    c['dt'] = gen.pick(rng, 1., 10., 60.)
    cfg = {}
    ser = {}
    if rng.random() < .4:
        cfg.update(process_shear=True, dx=c['dx'], dy=c['dy'], buffer_width=20.)
        c['nx'] = max(c['nx'], 12)
        if rng.random() < .3:
            cfg['process_separation'] = True
    if rng.random() < .25:
        ser['veg'] = .6
    if rng.random() < .3:
        ser['tide'] = [round(rng.uniform(-.5, 1.), 2), round(rng.uniform(0, 1.), 2), 2]
        cfg['process_tide'] = True
    if rng.random() < .3:
        cfg['process_avalanche'] = True
        c['profile'] = gen.pick(rng, 'step', 'dune')
    cfg['scheme'] = gen.pick(rng, 'euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward')
    if rng.random() < .3:
        cfg['solver'] = gen.pick(rng, 'pieter', 'steadystate', 'steadystatepieter')
    c['plan'] = [gen.pick(rng, -1, -1, -1, 5., -30.) for _ in range(c['steps'])]
    c['series'] = ser
    c['cfg'] = cfg
    return c


def geometry(mon, m, x, y, ds, dn, tag):
    s = m.s
    mon.close(s['x'], x, 'grid-kept', rtol=1e-9, atol=1e-7, msg='x-coordinates %s' % tag)
    if y is not None:
        mon.close(s['y'], y, 'grid-kept', rtol=1e-9, atol=1e-7, msg='y-coordinates %s' % tag)
    mon.close(s['ds'], ds, 'cell-size', rtol=1e-6, atol=1e-8, msg='cell size along the s-axis %s' % tag)
    mon.close(s['dn'], dn, 'cell-size', rtol=1e-6, atol=1e-8, msg='cell size along the n-axis %s' % tag)
    mon.close(s['dsdn'], s['ds'] * s['dn'], 'cell-area', msg='cell area %s' % tag)
    mon.close(s['dsdni'] * s['dsdn'], 1., 'cell-area', msg='inverse cell area %s' % tag)


def run(c, mon):
    if 'theta' not in c:
        m = gen.make_model(c)
        cfg, arr = gen.build(c)
        x = arr['x']
        d = np.diff(x, axis=1)
        ds = np.concatenate([d[:, :1], d], axis=1)
        for i in range(c['steps']):
            geometry(mon, m, x, None, ds, np.ones(ds.shape), 'step %d' % i)
            m.update()
            mon.ev('steps')
        mon.sig('1d', 'stretched' if c['stretch'] != 1 else 'uniform')
        return
    from aeolis.model import AeoLiS
    th = c['theta']
    a = np.deg2rad(th)
    R = lambda u, v: (u * np.cos(a) - v * np.sin(a), u * np.sin(a) + v * np.cos(a))
    m1 = gen.make_model(c)
    cfg, arr = gen.build(c)
    c2 = dict(c, rot=th, udir=c['udir'] - th)
    cfg2, arr2 = gen.build(c2)
    for n in 'xy':      # turned about its centre
        arr2[n] = (arr2[n] - arr2[n].mean() + arr[n].mean()).round(10)
    gen.write_arrays(arr2, cfg2)
    gen.write_config(cfg2)
    m2 = AeoLiS('aeolis.txt')
    m2.initialize()
    one = np.ones(arr['x'].shape)
    for m, ar, w in ((m1, arr, 'aligned'), (m2, arr2, 'turned')):
        geometry(mon, m, ar['x'], ar['y'], one * c['dx'], one * c['dy'], 'initially, ' + w)
    smooth = not c['cfg'].get('process_shear')
    for i, dt in enumerate(c['plan']):
        for m in (m1, m2):
            np.random.seed(c['seed'] % 2 ** 31 + i)
            m.update(dt)
        mon.ev('twin_steps')
        tag = 'step %d (dt %g)' % (i, dt)
        geometry(mon, m1, arr['x'], arr['y'], one * c['dx'], one * c['dy'], tag + ', aligned')
        geometry(mon, m2, arr2['x'], arr2['y'], one * c['dx'], one * c['dy'], tag + ', turned by %g' % th)
        mon.close(m2.t, m1.t, 'twin-time', rtol=1e-6, msg='time %s' % tag)
        sc = max(abs(m1.s['tau0']).max(), 1e-12)
        rt_, at = 1e-5, 1e-7
        for n in SCA:
            if dt < -1 and n not in ('zb', 'uw', 'mass', 'ustar', 'tau'):
                continue
            b, r = m2.s[n], m1.s[n]
            scale = np.abs(r[np.isfinite(r)]).max() if np.isfinite(r).any() else 0
            mon.close(b, r, 'twin-scalar', rtol=rt_, atol=max(at * scale, 1e-9), msg='%s in the grid turned by %g, %s' % (n, th, tag))
        for u, v in VEC:
            ru, rv = R(m1.s[u], m1.s[v])
            sc = np.hypot(ru, rv).max()
            mon.close(m2.s[u], ru, 'twin-vector', rtol=rt_, atol=max(at * sc, 1e-9), msg='%s in the grid turned by %g, %s' % (u, th, tag))
            mon.close(m2.s[v], rv, 'twin-vector', rtol=rt_, atol=max(at * sc, 1e-9), msg='%s in the grid turned by %g, %s' % (v, th, tag))
        d = np.deg2rad(m2.s['udir'] - m1.s['udir'] + th)
        mon.check(abs(np.sin(d)).max() < 1e-6 and (np.cos(d) > 0).all(), 'twin-direction', 'wind direction %s' % tag)
    moved = abs(m1.s['zb'] - arr['bed']).max() > 0
    mon.sig('q%d' % int(th // 90), 'sheared' if c['cfg'].get('process_shear') else '', *(sorted(c['series']) + [c['cfg']['scheme'], 'moved' if moved else '']))


warmup = gen.warmup
