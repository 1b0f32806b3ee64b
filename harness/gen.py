"""Random but realistic AeoLiS set-ups, written to disk exactly as a user would supply them."""
import random

import numpy as np


def fmt(v):
    """Configuration-file notation (the parser knows no exponents)."""
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, (int, np.integer)):
        return '%d' % v
    if isinstance(v, (float, np.floating)):
        t = '%.12f' % v
        t = t.rstrip('0')
        return t + '0' if t.endswith('.') else t
    if v is None:
        return 'None'
    if isinstance(v, (list, tuple, np.ndarray)):
        return ' '.join(fmt(x) for x in v)
    return str(v)


def write_config(cfg, fname='aeolis.txt', shuffle=None):
    keys = list(cfg)
    if shuffle is not None:
        shuffle.shuffle(keys)
    with open(fname, 'w') as fp:
        fp.write('%% generated\n')
        for k in keys:
            fp.write('%s = %s\n' % (k, fmt(cfg[k])))
    return fname


def pick(rng, *opts):
    return opts[rng.randrange(len(opts))]


PROFILES = ('flat', 'beach', 'dune', 'bumps', 'ridge', 'step')


def base_case(rng, dims='any', **over):
    """A JSON-serialisable description. Everything random is decided here or by case['seed']."""
    two = {'1d': False, '2d': True, 'any': rng.random() < .55}[dims]
    nx = rng.randint(5, 26)
    ny = rng.randint(2, 8) if two else 0
    c = dict(
        seed=rng.randrange(10 ** 9),
        nx=nx, ny=ny,
        dx=round(pick(rng, .5, 1., 2., 2., 3.7, 5., 10.), 3),
        dy=round(pick(rng, .5, 1., 2., 3., 4.2, 8.), 3),
        rot=0.,
        profile=pick(rng, *PROFILES),
        zoff=round(rng.uniform(0.2, 2.), 3),
        slope=round(rng.uniform(.01, .06), 4),
        amp=round(rng.uniform(.1, 1.2), 3),
        nf=pick(rng, 1, 1, 2, 3, 5),
        nl=pick(rng, 1, 2, 3, 4),
        layer=pick(rng, .001, .005, .01, .02, .05),
        grain=pick(rng, '1d', '1d', '2d', 'bedcomp'),
        wind=pick(rng, 'const', 'ramp', 'turn', 'gust', 'calm'),
        umax=round(rng.uniform(6., 28.), 2),
        udir=round(rng.uniform(200., 340.), 2),
        dt=pick(rng, 1., 10., 30., 60., 120., 600.),
        steps=rng.randint(3, 10),
        cfg={},
    )
    o = random.Random(c['seed'])
    if o.random() < .4:
        # grids seldom start at the origin of their coordinates
        c['org'] = [pick(o, -35., 120.5, 1000., round(o.uniform(-300, 5000), 2)), pick(o, -60., 10., 450., round(o.uniform(-300, 5000), 2))]
    c.update(over)
    return c


def build(c):
    """-> (cfg, arrays, series) for a case."""
    r = np.random.RandomState(c['seed'])
    nx, ny = c['nx'], c['ny']
    x1 = np.arange(nx + 1) * c['dx']
    if c.get('stretch') and ny == 0:
        x1 = np.concatenate([[0.], np.cumsum(c['dx'] * c['stretch'] ** np.arange(nx))])
    y1 = np.arange(ny + 1) * c['dy']
    X, Y = np.meshgrid(x1, y1)
    Lx = x1[-1]
    prof = c['profile']
    Z = np.zeros(X.shape) + c['zoff']
    if prof == 'beach':
        Z = -1. + c['slope'] * X + c['zoff'] * .3
    elif prof == 'dune':
        Z = -.5 + c['slope'] * X + c['amp'] * 2. * np.exp(-((X - .65 * Lx) / (.12 * Lx + 1e-9)) ** 2)
    elif prof == 'bumps':
        Z = Z + c['amp'] * .2 * r.uniform(-1, 1, X.shape)
    elif prof == 'ridge':
        ph = r.uniform(0, 6.28)
        Z = Z + .3 * c['amp'] * np.sin(2 * np.pi * X / (Lx / 2. + 1e-9) + ph) + .1 * c['slope'] * Y
    elif prof == 'step':
        Z = Z + c['amp'] * 2. * (X > Lx * r.uniform(.3, .7)) + .05 * r.uniform(-1, 1, X.shape)
    if c.get('uniform_y'):
        Z = np.repeat(Z[:1, :], ny + 1, axis=0)
    Xr, Yr = X, Y
    if c.get('fan') and ny > 0:
        # every transect with its own spacing
        Xr = X * (1. + c['fan'] * Y / Y[-1, 0])
    if c.get('rot'):
        a = np.deg2rad(c['rot'])
        Xr = X * np.cos(a) - Y * np.sin(a)
        Yr = X * np.sin(a) + Y * np.cos(a)
    if c.get('org'):
        Xr, Yr = Xr + c['org'][0], Yr + c['org'][1]

    nf, nl = c['nf'], c['nl']
    gs = np.sort(r.uniform(100e-6, 600e-6, nf)).round(7)
    cfg = dict(nx=nx, ny=ny, dt=float(c['dt']), tstart=0., tstop=float(c['dt'] * (c['steps'] + .5)),
               nlayers=nl, layer_thickness=float(c['layer']), grain_size=gs.tolist(),
               output_vars=['zb', 'Ct'], output_times=float(c['dt']))
    arr = {'x': Xr, 'bed': Z}
    if ny > 0:
        arr['y'] = Yr
        cfg['ygrid_file'] = 'y.txt'
    cfg['xgrid_file'] = 'x.txt'
    cfg['bed_file'] = 'bed.txt'
    if nf == 1:
        cfg['grain_dist'] = 1.
    g1 = r.dirichlet(np.ones(nf) * 2.).round(6)
    g1[-1] = max(round(1. - g1[:-1].sum(), 6), 0.)
    if c.get('empty') and nf > 1:
        # a class none of the sediment belongs to
        i = r.randint(nf)
        g1[i - 1], g1[i] = round(g1[i - 1] + g1[i], 6), 0.
    if nf > 1:
        cfg['grain_dist'] = g1.tolist()
    if c['grain'] == '2d' and nf > 1 and nl > 1:
        arr['gd'] = r.dirichlet(np.ones(nf) * 2., size=nl).round(6)
        cfg['grain_dist'] = 'gd.txt'
    elif c['grain'] == 'bedcomp':
        gd = r.dirichlet(np.ones(nf) * 2., size=(ny + 1, nx + 1, nl))
        mass = gd * c['layer'] * 2650. * .6
        arr['bedcomp'] = mass.reshape((ny + 1, -1))
        cfg['bedcomp_file'] = 'bedcomp.txt'

    T = cfg['tstop']
    n = 6
    t = np.linspace(0, T, n)
    u = np.ones(n) * c['umax']
    d = np.ones(n) * c['udir']
    w = c['wind']
    if w == 'ramp':
        u = np.linspace(c['umax'] * .2, c['umax'], n)
    elif w == 'turn':
        d = c['udir'] + np.linspace(-60, 60, n)
    elif w == 'gust':
        u = r.uniform(2., c['umax'], n)
        d = c['udir'] + r.uniform(-25, 25, n)
    elif w == 'calm':
        u = np.where(np.arange(n) % 3 == 2, 0., c['umax'])
    arr['wind'] = np.stack([t, u, d], axis=1)
    cfg['wind_file'] = 'wind.txt'

    extra = c.get('series', {})
    if 'tide' in extra:
        a = extra['tide']
        tt = np.linspace(0, T, 13)
        arr['tide'] = np.stack([tt, a[0] + a[1] * np.sin(2 * np.pi * tt / T * a[2])], axis=1)
        cfg['tide_file'] = 'tide.txt'
    if 'wave' in extra:
        a = extra['wave']
        tt = np.linspace(0, T, 7)
        arr['wave'] = np.stack([tt, a[0] * (1 + .5 * np.sin(tt / (T + 1.) * 5.)), np.ones(7) * a[1]], axis=1)
        cfg['wave_file'] = 'wave.txt'
    if 'meteo' in extra:
        tt = np.linspace(0, T, 7)
        arr['meteo'] = np.stack([tt, r.uniform(2, 30, 7), r.uniform(0, 25, 7), r.uniform(0, 3, 7) * (r.rand(7) < .5),
                                 r.uniform(98, 103, 7), r.uniform(30, 99, 7)], axis=1)
        cfg['meteo_file'] = 'meteo.txt'
    if 'ne' in extra:
        arr['ne'] = Z - extra['ne'] * (.2 + r.rand(*Z.shape))
        cfg['ne_file'] = 'ne.txt'
        cfg['th_nelayer'] = True
    if 'veg' in extra:
        arr['veg'] = np.clip(r.uniform(-.5, extra['veg'], Z.shape), 0., 1.)
        cfg['veg_file'] = 'veg.txt'
        cfg['process_vegetation'] = True
    if 'fence' in extra:
        f = np.zeros(Z.shape)
        f[:, max(2, nx // 3)] = extra['fence']
        arr['fence'] = f
        cfg['fence_file'] = 'fence.txt'
        cfg['process_fences'] = True
    for m in ('tide', 'wave', 'runup', 'threshold', 'gw', 'vver'):
        if m + '_mask' in extra:
            k = extra[m + '_mask']
            re = np.where(r.rand(*Z.shape) < .3, k[0], 1.)
            im = np.where(r.rand(*Z.shape) < .2, k[1], 0.)
            arr[m + '_mask'] = re + 1j * im
            cfg[m + '_mask'] = m + '_mask.txt'
    cfg.update(c.get('cfg', {}))
    return cfg, arr


def write_case(c, cfgname='aeolis.txt'):
    cfg, arr = build(c)
    write_arrays(arr, cfg)
    write_config(cfg, cfgname)
    return cfg, arr


def write_arrays(arr, cfg):
    for k, v in arr.items():
        if np.iscomplexobj(v):
            with open(k + '.txt', 'w') as fp:
                for row in v:
                    fp.write(' '.join('(%.10f%+.10fj)' % (z.real, z.imag) for z in row) + '\n')
        else:
            if cfg.get('ny') == 0 and k in ('x', 'bed', 'ne', 'veg', 'fence'):
                v = np.asarray(v).reshape(1, -1)
            np.savetxt(k + '.txt', v, fmt='%.10f')


def make_model(c):
    """Write the case into the current (scratch) directory and initialise a real model on it."""
    from aeolis.model import AeoLiS
    write_case(c)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def step(m, dt=-1):
    t0 = m.t
    m.update(dt)
    return m.t - t0


def warmup():
    """Compile the numba parts once, before the worker processes are forked."""
    import random
    from . import rt
    with rt.scratch():
        m = make_model(base_case(random.Random(3), '2d', wind='const', umax=18., nl=2, nf=2, grain='1d', steps=1))
        m.update()
