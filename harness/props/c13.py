"""Groundwater under the beach."""
import numpy as np
from harness import gen, trace

ID = 'C13'
N_QUICK, N_THOROUGH = 110, 2200
RULE = ('Random beaches (monotone, barred, dunes, water line anywhere on or off the grid) with tides, waves and run-up, both '
        'landward boundaries, seepage face and masks; special runs to the analytic steady water table, at hydrostatic rest, with '
        'run-up infiltration only, and 2-D models against a 1-D model of each of their transects.')
ASSUMPTIONS = ['diffusive time step number of the groundwater sub-step at most 0.3']


def case(rng, k):
    mode = ('any', 'any', 'any', 'steady', 'rest', 'infiltration', 'rows')[k % 7]
    c = gen.base_case(rng, '2d' if mode == 'rows' else 'any', nf=1, nl=1, grain='1d', wind='const')
    c['mode'] = mode
    c['umax'] = round(rng.uniform(1, 4), 2)
    c['nx'] = rng.randint(12, 26)
    if c['ny']:
        c['ny'] = rng.randint(2, 4)
    c['dx'] = gen.pick(rng, 1., 2., 3.5, 5.)
    c['dt'] = gen.pick(rng, 1., 7., 30., 60., 600.)
    c['steps'] = rng.randint(3, 10)
    tf = gen.pick(rng, 1, 4, 10, 30)
    D = round(rng.uniform(4, 20), 2)
    num = round(rng.uniform(.02, .3), 3)
    ne = round(rng.uniform(.2, .45), 3)
    K = num * c['dx'] ** 2 / (c['dt'] / tf) * ne / (D + 4.)
    cfg = dict(process_groundwater=True, process_tide=True, tfac_gw=tf, D_gw=D, ne_gw=ne, K_gw=round(K, 9),
               boundary_gw=gen.pick(rng, 'no_flow', 'static'), GW_stat=round(rng.uniform(-.5, 1.2), 3),
               in_gw=round(rng.uniform(-.5, .8), 3), Cl_gw=round(rng.uniform(.001, .05), 4))
    if cfg['K_gw'] <= 0:
        cfg['K_gw'] = 1e-9
    c['shape'] = gen.pick(rng, 'beach', 'beach', 'bar', 'dune', 'island')
    c['sea'] = round(rng.uniform(-.3, .6), 3)
    c['tidal'] = round(rng.uniform(.1, 1.5), 2) if rng.random() < .7 else 0.
    cfg['tide_file'] = 'tide.txt'
    c['wave'] = None
    if mode == 'any':
        if rng.random() < .25:
            c['sea'] = gen.pick(rng, -8., 12., -1.0, 3.)
        if rng.random() < .4:
            c['wave'] = [round(rng.uniform(.3, 3), 2), round(rng.uniform(4, 12), 1)]
        cfg['process_seepage_face'] = rng.random() < .3
        if rng.random() < .2:
            c['series'] = {'gw_mask': [round(rng.uniform(.5, 1), 2), round(rng.uniform(0, .2), 2)]}
    elif mode == 'rows':
        c['wave'] = [1.2, 8.] if rng.random() < .5 else None
        cfg['process_seepage_face'] = rng.random() < .6
        if cfg['process_seepage_face']:
            cfg['in_gw'] = round(rng.uniform(.3, 1.6), 3)
    elif mode == 'infiltration':
        c['wave'] = [round(rng.uniform(.8, 3), 2), round(rng.uniform(6, 12), 1)]
        cfg['K_gw'] = 1e-13
        cfg['in_gw'] = -6.
        cfg['boundary_gw'] = 'no_flow'
        c['tidal'] = 0.
        c['shape'] = 'beach'
        c['dx'] = 1.
    else:
        c['tidal'] = 0.
        c['shape'] = 'beach'
        c['nx'] = 18
    if mode == 'steady':
        c['steps'] = 5
        cfg['boundary_gw'] = 'static'
        cfg['tfac_gw'] = 20
        cfg['K_gw'] = round(.3 * c['dx'] ** 2 / (c['dt'] / 20.) * ne / (D + 4.), 9)
    if mode == 'rest':
        cfg['boundary_gw'] = 'no_flow'
        cfg['in_gw'] = c['sea']
    if mode == 'rows':
        cfg['process_bedupdate'] = False
    if c['wave']:
        cfg.update(process_wave=True, process_runup=True, wave_file='wave.txt', beach_slope=round(rng.uniform(.02, .12), 3))
    c['cfg'] = cfg
    return c


def bed(c):
    r = np.random.RandomState(c['seed'] + 1)
    n = c['nx'] + 1
    out = []
    for j in range(c['ny'] + 1):
        x = np.arange(n)
        z = -1.2 + 5.5 * x / (n - 1.) * (1. + .3 * r.rand()) - .2 * r.rand()
        if c['shape'] == 'bar':
            z = z + .9 * np.exp(-((x - .2 * n) / 1.5) ** 2)
        elif c['shape'] == 'dune':
            z = z + 2. * np.exp(-((x - .7 * n) / 3.) ** 2)
        elif c['shape'] == 'island':
            z = 2. - .06 * (x - .5 * n) ** 2 + .1 * r.rand(n)
        if c['mode'] in ('steady', 'rest'):
            z = np.where(x < 4, -1. + .01 * x, 4. + .01 * x)
        out.append(z)
    return np.array(out).round(5)


def make(c, z, row=None):
    from aeolis.model import AeoLiS
    import os
    c = dict(c)
    if row is not None:
        c['ny'] = 0
    cfg, arr = gen.build(c)
    arr['bed'] = z if row is None else z[row:row + 1]
    tt = np.linspace(0, c['dt'] * c['steps'] * .7 + 5., 7)
    arr['tide'] = np.stack([tt, c['sea'] + c['tidal'] * np.sin(np.arange(7) * 1.1)], axis=1)
    if c['wave']:
        arr['wave'] = np.array([[0., c['wave'][0], c['wave'][1]], [1e6, c['wave'][0], c['wave'][1]]])
    if row is not None:
        for f in ('x.txt', 'y.txt', 'bed.txt'):
            if os.path.exists(f):
                os.remove(f)
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def run(c, mon):
    z = bed(c)
    m = make(c, z)
    p = m.p
    mode = c['mode']
    steps = c['steps']
    if mode == 'steady':
        nint = c['nx'] - 3
        num = p['K_gw'] / p['ne_gw'] * (p['D_gw'] - .5) * (p['dt'] / 20.) / c['dx'] ** 2
        steps = int(np.ceil(12. * nint ** 2 / np.pi ** 2 / num / 20.)) + 1
    hist = []
    dig = np.random.RandomState(c['seed'] + 7) if mode == 'any' and c['seed'] % 3 == 0 else None
    with trace.Tracer({'hydro': ('gw', 'gw_prev', 'wetting', 'zb', 'DSWL', 'TWL', 'x', 'ds'), 'hinterp': ('DSWL', 'TWL')}) as tr:
        for i in range(steps):
            first = m.t == p['tstart']
            if dig is not None and i:
                # (the bed is dug up and raised between the steps)
                m.set_var('zb', m.get_var('zb') + dig.uniform(-.4, .4, m.s['zb'].shape))
            m.update()
            ev = tr.take()
            sub = [e for e in ev if e[0] == 'hinterp']
            hy = [e for e in ev if e[0] == 'hydro']
            if len(hy) != 1:
                mon.note('no hydro stage')
                return
            st, b, a, args = hy[0]
            dt = args[2]
            tag = 'step %d' % i
            mon.ev('groundwater steps')
            zb, gw, sea = a['zb'], a['gw'], a['DSWL']
            mon.finite(gw, 'finite', 'groundwater %s' % tag)
            before = np.zeros(gw.shape) + p['in_gw'] if first else b['gw']
            if not first:
                mon.close(a['gw_prev'], b['gw'], 'previous-level', rtol=0, atol=0, msg='previous groundwater level %s' % tag)
                mon.check((np.asarray(a['wetting'], bool) == (b['gw'] > b['gw_prev'])).all(), 'wetting', 'wetting flag is not the rise during the last step %s' % tag)
            replay(c, mon, m, sub, a, before, dt, tag)
            # bounds by the bed and the sea
            wet = zb < sea
            mon.close(gw[wet], sea[wet], 'submerged', rtol=0, atol=1e-12, msg='groundwater below the sea %s' % tag)
            mon.check((gw[~wet] <= zb[~wet] + 1e-12).all(), 'below-ground', lambda: 'groundwater %g above the bed %s' % ((gw - zb)[~wet].max(), tag))
            # maximum principle
            if not c['wave'] and not p['process_seepage_face'] and not c.get('series'):
                lv = [e[2]['DSWL'] for e in sub]
                lo = min([before.min(), min(v.min() for v in lv)] + ([p['GW_stat']] if p['boundary_gw'] == 'static' else []))
                hi = max([before.max(), max(v.max() for v in lv)] + ([p['GW_stat']] if p['boundary_gw'] == 'static' else []))
                tol = .05 * (hi - lo) + 1e-9
                land = ~wet
                low = np.minimum(lo, zb)
                mon.check((gw[land] <= hi + tol).all() and (gw[land] >= low[land] - tol).all(), 'extremes', lambda: 'groundwater %g..%g outside %g..%g %s' % (
                    gw[land].min(), gw[land].max(), lo, hi, tag))
            if mode == 'any':
                mon.sig(p['boundary_gw'], 'seep' if p['process_seepage_face'] else '', 'wave' if c['wave'] else '', c['shape'],
                        'allwet' if wet.all() else ('dry' if not wet.any() else 'shore'), '2d' if c['ny'] else '1d')
            if mode == 'rest':
                land = zb > c['sea'] + 1e-9
                mon.close(gw[land], c['sea'] + 0. * gw[land], 'rest', rtol=0, atol=1e-10, msg='groundwater at the level of the sea %s' % tag)
                mon.sig('rest', '2d' if c['ny'] else '1d', 'tf%d' % p['tfac_gw'])
            if mode == 'infiltration' and first:
                infiltration(c, mon, m, a, before, p)
            hist.append(gw.copy())
    if mode == 'steady':
        x = np.arange(c['nx'] + 1) * c['dx']
        i0, i1 = 3, c['nx'] - 2
        D = p['D_gw']
        e = np.sqrt((D + c['sea']) ** 2 + ((D + p['GW_stat']) ** 2 - (D + c['sea']) ** 2) * (x - x[i0]) / (x[i1] - x[i0])) - D
        span = abs(p['GW_stat'] - c['sea'])
        for row in m.s['gw']:
            mon.close(row[i0:i1 + 1], e[i0:i1 + 1], 'steady', rtol=0, atol=.01 * span + 1e-6, msg='steady water table')
        mon.sig('steady', 'fall' if p['GW_stat'] < c['sea'] else 'rise', '2d' if c['ny'] else '1d')
    if mode == 'rows':
        for j in range(z.shape[0]):
            m1 = make(c, z, row=j)
            for i in range(c['steps']):
                m1.update()
            mon.close(m.s['gw'][j], m1.s['gw'][0], 'transect', rtol=1e-9, atol=1e-9, msg='groundwater of transect %d on its own' % j)
        mon.sig('rows', z.shape[0], p['boundary_gw'], 'seep' if p['process_seepage_face'] else '', c['shape'])


def transect_rate(g, zb, sea, ds, p, s0):
    """Boundary levels (in place) and rate of change of the table of one transect (Boussinesq equation)."""
    n = len(g)
    if s0 >= 0:
        g[max(s0 - 1, 0):s0 + 1] = sea[max(s0 - 1, 0):s0 + 1]
    g[-3:] = g[-4] if p['boundary_gw'] == 'no_flow' else p['GW_stat']
    if p['process_seepage_face']:
        below = np.flatnonzero(g + .05 < zb)
        e = below[0] - 1 if below.size else -1      # one cell before the table leaves the bed
        if 0 <= s0 < e:
            g[s0:e] = zb[s0:e]
    k = max(s0, 1)
    rate = np.zeros(n)
    if k < n - 3:
        j = np.arange(k, n - 2)
        adv = np.zeros(n)
        adv[j] = g[j] * (g[j + 1] - g[j - 1]) / (2. * ds[j])
        i = np.arange(k + 1, n - 3)
        rate[i] = p['K_gw'] / p['ne_gw'] * (p['D_gw'] * (g[i + 1] - 2. * g[i] + g[i - 1]) / ds[i] ** 2 + (adv[i + 1] - adv[i - 1]) / (2. * ds[i]))
    return rate


def replay(c, mon, m, sub, a, before, dt, tag):
    """The whole step of the water table, transect by transect, from the water levels at each sub-step."""
    p = m.p
    n = max(1, int(p['tfac_gw']))
    if len(sub) < n:
        mon.note('no water levels per sub-step')
        return
    lv = [e[2] for e in sub[-n:]]
    h = dt / n
    want = before.copy()
    mask = m.s['gw_mask']
    near = np.zeros(want.shape, bool)
    for j in range(want.shape[0]):
        zb, x, ds = a['zb'][j], a['x'][j], a['ds'][j]
        mk = mask[j] if np.ndim(mask) == 2 else mask
        g = want[j]
        for v in lv:
            sea, top = v['DSWL'][j], v['TWL'][j]
            s0, r0 = [(np.flatnonzero(zb > w)[0] - 1 if (zb > w).any() else c['nx']) for w in (sea, top)]
            near[j] |= bool(p['process_seepage_face'] and (abs(g + .05 - zb) < 1e-9).any())
            f1 = transect_rate(g, zb, sea, ds, p, s0)
            f2 = transect_rate(g + .5 * h * f1, zb, sea, ds, p, s0)
            f3 = transect_rate(g + .5 * h * f2, zb, sea, ds, p, s0)
            f4 = transect_rate(g + h * f3, zb, sea, ds, p, s0)
            g = g + h * (f1 + 2. * f2 + 2. * f3 + f4) / 6.
            if p['process_wave'] and s0 >= 0 and r0 > s0:
                pk = int(s0 + 2 / 3. * (r0 - s0))
                L = x[r0] - x[s0]
                i = np.arange(len(x))
                d = x - x[s0]
                f = np.where((i >= s0) & (i < pk), d / (2 / 3. * L), 0.) + np.where((i > pk) & (i < r0), 3. - d / (L / 3.), 0.)
                f[pk] = 1.
                g = g + p['Cl_gw'] * f
                mon.ev('infiltrating sub-steps')
            g = np.real(mk) * g + np.imag(mk)
            g = np.where(zb < sea, sea, np.minimum(g, zb))
        want[j] = g
    ok = ~near
    mon.close(a['gw'][ok], want[ok], 'water-balance', rtol=1e-7, atol=1e-8, msg='water table %s' % tag)


def infiltration(c, mon, m, a, before, p):
    """No lateral flow: the rise is the infiltrated run-up, distributed between shoreline and run-up limit as documented."""
    x = np.arange(c['nx'] + 1) * c['dx']
    n = max(1, int(p['tfac_gw']))
    for j in range(a['zb'].shape[0]):
        zb, sea, top, gw = a['zb'][j], a['DSWL'][j], a['TWL'][j], a['gw'][j]
        dry, run_ = np.where(zb > sea)[0], np.where(zb > top)[0]
        if not len(dry) or not len(run_) or dry[0] < 2:
            continue
        s0, r0 = dry[0] - 1, run_[0] - 1
        if r0 - s0 < 2:
            continue
        L = x[r0] - x[s0]
        f = np.where(x - x[s0] <= 2 / 3. * L, (x - x[s0]) / (2 / 3. * L), 3. - (x - x[s0]) / (L / 3.))
        f[:s0] = 0.
        f[r0:] = 0.
        peak = int(s0 + 2 / 3. * (r0 - s0))
        want = np.minimum(before[j] + n * p['Cl_gw'] * f, zb)
        sel = np.arange(len(x)) > s0
        sel[[peak]] = False
        sel[-3:] = False
        mon.close(gw[sel], want[sel], 'infiltration', rtol=0, atol=1e-4, msg='rise by infiltrating run-up')
        rise = (gw[peak] - before[j][peak]) / (n * p['Cl_gw'])
        mon.check(f[peak] - 1e-3 <= rise <= 1. + 1e-3, 'infiltration-peak', lambda: 'relative rise at the peak %g, expected %g to 1' % (rise, f[peak]))
        mon.sig('infiltration', 'cells%d' % min(r0 - s0, 8))


warmup = gen.warmup
