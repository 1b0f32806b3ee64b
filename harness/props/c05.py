"""Saturation (equilibrium) concentration and saltation velocity."""
import numpy as np
from harness import gen, trace

ID = 'C05'
N_QUICK, N_THOROUGH = 180, 3600
RULE = ('Random models over all transport formulations, saltation-velocity methods, wind speeds from calm to storm, flat '
        'and perturbed shear fields (1-D and 2-D, with vegetation), thresholds raised by water, moisture, mask or a '
        'non-erodible floor; after each step the reported saturation is recomputed from the reported shear velocity, '
        'threshold and saltation velocity.')
ASSUMPTIONS = ['bagnold_gs is not generated (its grain-size factor only exists for 1-D grids)']

METHODS = ('bagnold', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen')


def case(rng, k):
    c = gen.base_case(rng, wind=gen.pick(rng, 'const', 'ramp', 'gust', 'turn', 'calm'))
    c['umax'] = round(gen.pick(rng, rng.uniform(3, 8), rng.uniform(6, 30)), 2)
    c['udir'] = round(gen.pick(rng, rng.uniform(200, 340), rng.uniform(0, 360)), 2)
    c['steps'] = rng.randint(2, 5)
    cfg = dict(method_transport=METHODS[k % len(METHODS)])
    cfg['method_grainspeed'] = gen.pick(rng, 'windspeed', 'windspeed', 'constant', 'duran')
    if rng.random() < .4:
        cfg['process_shear'] = True
        if c['ny']:
            cfg.update(dx=c['dx'], dy=c['dy'])
        c['profile'] = gen.pick(rng, 'dune', 'bumps', 'ridge')
        if c['ny'] and rng.random() < .4:
            cfg['process_separation'] = True
            c['profile'] = gen.pick(rng, 'step', 'dune', 'ridge')
    if rng.random() < .4:
        cfg['accfac'] = gen.pick(rng, 2., 10., 100.)
    for nm, lo, hi in (('Cb', 1., 3.), ('Ck', 1.5, 4.), ('Cl', 4., 9.), ('Cdk', 3., 7.), ('rhoa', 1.1, 1.35), ('g', 9.7, 9.9),
                       ('kappa', .38, .42), ('k', .0005, .01), ('z', 2., 12.)):
        if rng.random() < .2:
            cfg[nm] = round(rng.uniform(lo, hi), 5)
    ser = {}
    if rng.random() < .3:
        ser['tide'] = [round(rng.uniform(-1, 2.), 2), round(rng.uniform(0, 1.5), 2), 2]
        cfg['process_tide'] = True
    if rng.random() < .2:
        ser['ne'] = gen.pick(rng, .0, .01, .3)
    if rng.random() < .2:
        ser['threshold_mask'] = [round(rng.uniform(.5, 2), 2), round(rng.uniform(0, .3), 2)]
    if rng.random() < .25 and c['ny'] > 0:
        ser['veg'] = round(rng.uniform(.2, 1.), 2)
    c['series'] = ser
    c['cfg'] = cfg
    return c


def reference(method, p, ustar, uth, u):
    rg = p['rhoa'] / p['g']
    with np.errstate(all='ignore'):
        if method == 'bagnold':
            q = p['Cb'] * rg * (ustar - uth) ** 3 / u
        elif method == 'kawamura':
            q = p['Ck'] * rg * (ustar + uth) ** 2 * (ustar - uth) / u
        elif method == 'lettau':
            q = p['Cl'] * rg * ustar ** 2 * (ustar - uth) / u
        elif method == 'dk':
            q = p['Cdk'] * rg * .8 * uth * (ustar ** 2 - (.8 * uth) ** 2) / u
        elif method == 'sauermann':
            q = 2. * .35 * rg * (ustar ** 2 - uth ** 2)
        else:
            q = p['Cb'] * rg * (ustar ** 3 - uth ** 3) / u
        q = np.where(np.isinf(uth), 0., np.maximum(0., q))
    return np.where((ustar != 0) & (u != 0), q, 0.)


def duran(s, p):
    """Grain velocity by Duran (2007): wind velocity felt by the grains at threshold and its increase with the shear
    velocity (1.60), against the friction of the grains on the bed and its slope. -> us, un, cells where it is defined"""
    d, nf = np.asarray(p['grain_size'], float), p['nfractions']
    g, v, kap = float(p['g']), float(p['v']), p['kappa']
    sr = p['rhog'] / p['rhoa']
    lv = (v ** 2 / (p['Aa'] ** 2 * g * (sr - 1))) ** (1 / 3)
    al = .17 * d / lv
    S = d / (4 * v) * np.sqrt(g * d * (sr - 1))
    uf = np.sqrt((sr - 1) * g * d) / (.95 + np.sqrt(2 * al) * 5.12 / S)
    z, x, y = s['zb'], s['x'], s['y']
    hs, hn = np.zeros(z.shape), np.zeros(z.shape)
    hs[:, 1:-1] = (z[:, 2:] - z[:, :-2]) / (x[:, 2:] - x[:, :-2])
    if p['ny']:
        hn[1:-1] = (z[2:] - z[:-2]) / (y[2:] - y[:-2])
        hs[:, 0], hs[:, -1], hn[0], hn[-1] = hs[:, 1], hs[:, -2], hn[1], hn[-2]
    us, un = np.zeros(s['us'].shape), np.zeros(s['us'].shape)
    with np.errstate(all='ignore'):
        sheared = s['ustar'] >= .05
        es = np.where(sheared, s['ustars'] / s['ustar'], s['uws'] / s['uw'])
        en = np.where(sheared, s['ustarn'] / s['ustar'], s['uwn'] / s['uw'])
        for i in range(nf):
            th = s['uth0'][:, :, i]
            zm = 14. / 2.4 * th * (v / g ** 2) ** (1 / 3)
            ve = th / kap * (np.log(35. * lv / (d[i] / 20.)) + 35. * lv / zm * (s['ustar'] / th - 1.))
            A = np.hypot(es + 2 * al[i] * hs, en + 2 * al[i] * hn)
            f = np.sqrt(2 * al[i]) * uf[i] / A
            us[:, :, i] = (ve - f / (2 * al[i])) * es - f * hs
            un[:, :, i] = (ve - f / (2 * al[i])) * en - f * hn
        if p['process_separation'] and 'zsep' in s:
            b = s['zsep'] > s['zb'] + .01
            us[b], un[b] = .1 * es[b][:, None], .1 * en[b][:, None]
        on = (s['ustar'][:, :, None] >= s['uth0']) & (s['uth0'] > 0) & (s['uw'] > 0)[:, :, None]
    on[abs(s['ustar'] - .05) < 1e-9] = False
    if not p['ny']:
        on[:, [0, -1]] = False
    return us, un, on


def run(c, mon):
    m = gen.make_model(c)
    p = m.p
    meth = p['method_transport']
    names = ('Cu', 'Cuf', 'Cu0', 'u', 'us', 'un', 'ustar', 'ustars', 'ustarn', 'ustar0', 'uth', 'uthf', 'uth0', 'uw', 'uws', 'uwn', 'zb', 'x', 'y', 'zsep')
    with trace.Tracer({'equilibrium': names}) as tr:
        for i in range(c['steps']):
            m.update()
            mon.ev('steps')
            log = tr.take()
            if np.sum(m.s['uw']) == 0:
                continue
            s = log[-1][2] if log else trace.snap(m.s, names)
            tag = 'step %d' % i
            nf = p['nfractions']
            ust = s['ustar'][:, :, None] + np.zeros(nf)
            u, us, un = s['u'], s['us'], s['un']
            acc = p['accfac']
            for nm, th in (('Cu', 'uth'), ('Cuf', 'uthf')):
                r = reference(meth, p, ust, s[th], u)
                mon.close(s[nm] / acc, r, 'saturation', rtol=1e-8, atol=1e-14, msg='%s by %s %s' % (nm, meth, tag))
            mon.close(m.get_var('Cu'), s['Cu'] / acc, 'reported', rtol=1e-12, atol=0, msg='saturation reported to a coupled model %s' % tag)
            Cu = m.get_var('Cu')
            mon.check(np.isfinite(Cu).all() and Cu.min() >= 0, 'non-negative', lambda: 'saturation %r %s' % (Cu.min(), tag))
            f = .8 if meth == 'dk' else 1.
            below = ust < f * s['uth'] * (1 - 1e-12)
            if below.any():
                mon.check((Cu[below] == 0).all(), 'below-threshold', lambda: 'saturation %r below the threshold %s' % (Cu[below].max(), tag))
            above = (ust > f * s['uth'] * (1 + 1e-9)) & (u > 0) & np.isfinite(s['uth'])
            if above.any():
                mon.check((Cu[above] > 0).all(), 'above-threshold', 'no saturation above the threshold %s' % tag)
            if meth not in ('kawamura', 'lettau') and acc == 1 and (p['th_grainsize']):
                r = reference(meth, p, s['ustar0'][:, :, None] + np.zeros(nf), s['uth0'], u)
                on = (ust != 0) & (u != 0)
                mon.close(np.where(on, s['Cu0'], 0), np.where(on, r, 0), 'flat-bed', rtol=1e-8, atol=1e-14, msg='flat bed saturation %s' % tag)
            # saltation velocity
            g = p['method_grainspeed']
            if g == 'windspeed':
                for a, b in ((u, 'uw'), (us, 'uws'), (un, 'uwn')):
                    mon.close(a, s[b][:, :, None] + np.zeros(nf), 'speed', rtol=1e-9, msg='saltation velocity vs wind %s' % tag)
            elif g == 'constant':
                on = ust > 0
                with np.errstate(all='ignore'):
                    es, en = s['ustars'] / s['ustar'], s['ustarn'] / s['ustar']
                mon.close(np.where(on, us, 0), np.where(on, es[:, :, None], 0), 'speed', rtol=1e-9, msg='constant saltation velocity %s' % tag)
                mon.close(np.where(on, un, 0), np.where(on, en[:, :, None], 0), 'speed', rtol=1e-9, msg='constant saltation velocity %s' % tag)
            elif p['process_threshold'] and p['th_grainsize'] and not p['alpha']:
                du, dn, on = duran(s, p)
                for a, b in ((us, du), (un, dn)):
                    mon.close(np.where(on, a, 0), np.where(on, b, 0), 'speed', rtol=1e-7, atol=1e-10, msg='saltation velocity by Duran %s' % tag)
                mon.ev('duran_speeds', int(on.sum()))
                mon.ev('duran_speeds_in_the_lee', int((s['zsep'] > s['zb'] + .01).sum()) if p['process_separation'] and 'zsep' in s else 0)
            if g != 'windspeed':
                mon.close(u, np.hypot(us, un), 'speed-norm', rtol=1e-9, atol=1e-12, msg='magnitude of the saltation velocity %s' % tag)
            mon.ev('cells_above_threshold', above.sum())
            mon.ev('cells_below_threshold', below.sum())
            mon.sig(meth, g, 'above' if above.any() else '', 'below' if below.any() else '',
                    'closed' if np.isinf(s['uth']).any() else '', 'sheared' if p['process_shear'] else '',
                    'acc' if acc != 1 else '', '2d' if p['ny'] else '1d', 'nf%d' % nf)


warmup = gen.warmup
