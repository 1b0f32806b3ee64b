"""Vegetation: sheltering, germination and spreading, growth, burial and death."""
import numpy as np
from scipy import ndimage
from harness import gen, trace

ID = 'C14'
N_QUICK, N_THOROUGH = 150, 2500
RULE = ('Random models with vegetation (random initial maps, both growth models, Raupach and Okin sheltering, shear and fences '
        'under it, tides and elevation limits killing plants, burial and erosion rates imposed by transport) over time steps from '
        'minutes to months; sheltering and growth recomputed each step, germination and spreading frequencies tallied.')
ASSUMPTIONS = ['random draws are judged by their frequency (six standard deviations)']
YEAR = 365.25 * 24 * 3600.
NAMES = ('rhoveg', 'hveg', 'germinate', 'lateral', 'dzbveg', 'dhveg', 'drhoveg', 'zb', 'zs', 'ds')


def case(rng, k):
    mode = ('any', 'any', 'shear', 'tally')[k % 4]
    c = gen.base_case(rng, 'any' if mode != 'tally' else '2d', nf=1, nl=gen.pick(rng, 1, 3), grain='1d',
                      profile=gen.pick(rng, 'flat', 'beach', 'dune', 'bumps', 'step'))
    c['mode'] = mode
    c['zoff'] = round(rng.uniform(1., 5.), 2)
    c['dt'] = gen.pick(rng, 600., 3600., 86400., 604800.)
    c['steps'] = rng.randint(2, 8)
    c['umax'] = round(rng.uniform(3, 12) if c['dt'] > 1e4 else rng.uniform(5, 20), 2)
    c['layer'] = .05
    cfg = dict(process_vegetation=True, veg_min_elevation=round(gen.pick(rng, -10., c['zoff'] + rng.uniform(-.3, .3), c['zoff'] - .5), 2),
               vegshear_type=gen.pick(rng, 'raupach', 'okin'), gamma_vegshear=round(rng.uniform(5, 40), 1),
               veg_sigma=round(gen.pick(rng, .8, rng.uniform(.1, 2.)), 2), hveg_max=round(rng.uniform(.3, 2.), 2),
               V_ver=round(gen.pick(rng, rng.uniform(.5, 10), rng.uniform(.5, 10), 0.), 2), veg_gamma=round(rng.uniform(.2, 2.), 2),
               dzb_opt=round(gen.pick(rng, 0., rng.uniform(-.2, .5)), 2), germinate=round(gen.pick(rng, 0., rng.uniform(.01, .5)), 3),
               lateral=round(gen.pick(rng, 0., rng.uniform(.01, .5)), 3), veggrowth_type=gen.pick(rng, 'orig', 'duran'),
               rhoveg_max=round(rng.uniform(.3, 1.), 2), t_veg=round(rng.uniform(1, 60), 1), v_gam=round(rng.uniform(.2, 2), 2))
    if cfg['veg_min_elevation'] == 0:
        cfg['veg_min_elevation'] = .01
    if rng.random() < .5:
        cfg['accfac'] = gen.pick(rng, 1., 10.)
    if rng.random() < .25:
        cfg['max_bedlevel_change'] = .01
    c['series'] = {'veg': round(rng.uniform(.1, 1.), 2)} if rng.random() < .85 else {}
    if rng.random() < .35:
        cfg['process_tide'] = True
        c['series']['tide'] = [round(c['zoff'] + rng.uniform(-1, .5), 2), round(rng.uniform(0, 1.), 2), 3.]
    if rng.random() < .3:
        cfg['process_shear'] = True
        cfg.update(dx=max(c['dx'], 1.), dy=max(c['dy'], 1.))
    c['given_dt'] = rng.random() < .3
    if mode == 'tally':
        c['nx'], c['ny'] = 26, 9
        c['steps'] = 25
        c['umax'] = 2.
        c['wind'] = 'const'
        c['profile'] = 'flat'
        c['dt'] = gen.pick(rng, 86400., 604800.)
        cfg.update(V_ver=0., germinate=gen.pick(rng, 0., round(rng.uniform(.1, .9), 2)), lateral=gen.pick(rng, 0., round(rng.uniform(.1, .9), 2)),
                   veg_min_elevation=-10., process_tide=False, process_shear=False, accfac=1.)
        c['series'] = {'veg': .3}
        if rng.random() < .5:
            cfg['accfac'] = gen.pick(rng, 1., 5., 30.)
        c['given_dt'] = rng.random() < .5
    elif rng.random() < .35:
        # seeds and runners reaching over the edge of the ground where plants can live
        c['profile'] = gen.pick(rng, 'beach', 'dune', 'bumps', 'step')
        c['dt'] = gen.pick(rng, 604800., 2592000.)
        c['umax'] = round(rng.uniform(1, 4), 2)
        cfg.update(lateral=round(rng.uniform(.6, .999), 3), germinate=round(gen.pick(rng, 0., rng.uniform(.01, .9)), 3), accfac=1.,
                   V_ver=round(rng.uniform(.5, 10), 2), dzb_opt=0., veg_min_elevation=round(c['zoff'] + rng.uniform(-.1, 1.), 2))
        c['series'].setdefault('veg', round(rng.uniform(.2, 1.), 2))
        c['steps'] = 8
    c['cfg'] = cfg
    c['impose'] = mode != 'tally' and rng.random() < .4
    return c


def okin(p, x, h, ws):
    """Reduction of the shear velocity in the lee of all plants (Okin, 2008)."""
    red = np.zeros(x.shape)
    for i in range(len(x)):
        if h[i] > 0:
            d = (x - x[i]) * ws
            m = p['okin_initialred_veg'] + (1 - p['okin_initialred_veg']) * (1 - np.exp(-d * p['okin_c1_veg'] / h[i]))
            q = np.where((d >= 0) & (d / h[i] < 20), 1 - m, 0.)
            red += np.clip(np.where(q < 1e-5, 0., q), 0., 1.)
    return 1 - np.minimum(red, 1.)


def run(c, mon):
    from aeolis.model import AeoLiS
    gen.write_case(c)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    p = m.p
    np.random.seed(c['seed'] % (2 ** 31))
    r = np.random.RandomState(c['seed'] + 2)
    s = m.s
    hmax = p['hveg_max']
    if 'veg' in c['series']:
        mon.close(s['hveg'], hmax * np.sqrt(s['rhoveg']), 'height-cover', rtol=1e-9, atol=1e-12, msg='initial plant height')
        mon.close(s['rhoveg'], np.loadtxt('veg.txt', ndmin=2), 'initial-cover', rtol=1e-9, atol=1e-12, msg='initial vegetation cover')
        mon.close(s['germinate'], s['rhoveg'] > 0, 'initial-cover', msg='plants germinated where there is cover')
        mon.close(s['lateral'], 0., 'initial-cover', msg='lateral spreading at the start')
    else:
        mon.close(s['rhoveg'], 0., 'initial-cover', msg='initial vegetation cover without a map')
    duran = p['veggrowth_type'] != 'orig'
    tal = dict(n=0., want=0., var=0., ln=0., lwant=0., lvar=0., hist=[])
    with trace.Tracer({'vegshear': ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun', 'vegfac', 'rhoveg', 'hveg', 'udir', 'uw'),
                       'germinate': NAMES, 'grow': NAMES}) as tr:
        for i in range(c['steps']):
            if c['impose'] and r.rand() < .5:
                rv = np.clip(r.uniform(-.5, 1, m.s['zb'].shape), 0, 1)
                m.set_var('rhoveg', rv)
                m.set_var('hveg', hmax * np.sqrt(rv))
            a0 = m.s['rhoveg'].copy()
            if c['given_dt'] and i % 2:
                m.update(c['dt'] * .37)
            else:
                m.update()
            dt = m.dt * p['accfac']
            tag = 'step %d' % i
            st1 = st2 = None
            for st, b, a, _ in tr.take():
                if st == 'vegshear':
                    shelter(c, mon, p, m, b, a, tag)
                elif st == 'germinate':
                    st1 = (b, a)
                elif st == 'grow':
                    st2 = (b, a)
            s = m.s
            rho, h = s['rhoveg'], s['hveg']
            mon.ev('plant cells', (rho > 0).sum())
            mon.finite(rho, 'finite', 'cover %s' % tag)
            mon.check((rho >= 0).all() and (rho <= 1 + 1e-12).all(), 'cover-bounds', lambda: 'cover %g..%g %s' % (rho.min(), rho.max(), tag))
            mon.check((h >= 0).all() and (h <= hmax * (1 + 1e-12)).all(), 'height-bounds', lambda: 'height %g..%g of %g %s' % (h.min(), h.max(), hmax, tag))
            if not (p['germinate'] or p['lateral']):
                mon.check(not (rho[a0 <= 0] > 0).any(), 'no-spontaneous', 'plants appear without germination or spreading %s' % tag)
            if st1 and st2:
                seeds(c, mon, p, st1, dt, tag, tal)
                growth(c, mon, p, st1[1], st2[0], st2[1], dt, tag, duran)
    if c['mode'] == 'tally' and p['germinate'] > 0:
        mon.check(abs(tal['n'] - tal['want']) <= 6 * np.sqrt(tal['var'] + 1.), 'germination-rate', lambda: '%d cells germinated, expected %.1f' % (tal['n'], tal['want']))
        coincidences(mon, tal['hist'])
        mon.sig('tally germination')
    if c['mode'] == 'tally' and p['lateral'] > 0:
        mon.check(abs(tal['ln'] - tal['lwant']) <= 6 * np.sqrt(tal['lvar'] + 1.), 'spreading-rate', lambda: '%d cells spread to, expected %.1f' % (tal['ln'], tal['lwant']))
        mon.sig('tally spreading')


def coincidences(mon, hist):
    """Draws of neighbouring cells and successive steps are independent of each other."""
    new = np.array([h[0] for h in hist])
    prob = np.array([h[1] for h in hist])
    for ax, what in ((0, 'successive steps'), (1, 'neighbouring rows'), (2, 'neighbouring columns')):
        q = [np.moveaxis(v, ax, 0) for v in (new, prob)]
        n = (q[0][1:] & q[0][:-1]).sum()
        want = (q[1][1:] * q[1][:-1]).sum()
        mon.check(abs(n - want) <= 8 * np.sqrt(want + 1.) + 3, 'germination-independence', lambda: 'cells germinating together in %s: %d, expected %.1f' % (what, n, want))


def shelter(c, mon, p, m, b, a, tag):
    us, rho, h = b['ustar'], b['rhoveg'], b['hveg']
    if p['vegshear_type'] == 'okin' and p['ny'] == 0:
        x = np.arange(c['nx'] + 1) * c['dx']
        # nautical: the wind comes from udir; towards positive x for westerly winds
        d = (b['udir'][0, 0] + 180.) % 360.
        if abs(np.sin(np.deg2rad(d))) < 1e-6 or abs(d - 180) < 1e-6:
            mon.note('wind along the coast')
            return
        f = okin(p, x, h[0], 1. if d < 180 else -1.)
        want = np.maximum(us * f, .01)
        kind = 'okin'
    else:
        vf = ndimage.gaussian_filter(1. / np.sqrt(1. + p['gamma_vegshear'] * rho), sigma=p['veg_sigma'])
        want = us * vf
        kind = 'raupach'
        lo = 1. / np.sqrt(1 + p['gamma_vegshear'] * rho.max())
        mon.check((a['ustar'] <= us * (1 + 1e-9)).all() and (a['ustar'] >= us * lo * (1 - 1e-9)).all(), 'shelter-range', 'shear velocity outside of the sheltered range %s' % tag)
        if not rho.any():
            mon.close(a['ustar'], us, 'bare', rtol=1e-12, atol=0, msg='shear velocity over bare sand %s' % tag)
    mon.close(a['ustar'], want, 'shelter', rtol=1e-9, atol=1e-12, msg='%s: sheltered shear velocity %s' % (kind, tag))
    nz = us > 0
    for q in ('s', 'n'):
        mon.close(a['ustar' + q][nz], a['ustar'][nz] * (b['ustar' + q][nz] / us[nz]), 'direction', rtol=1e-9, atol=1e-12, msg='direction kept %s' % tag)
        mon.close(a['tau' + q][nz], p['rhoa'] * a['ustar'][nz] * a['ustar' + q][nz], 'stress', rtol=1e-9, atol=1e-12, msg='stress component %s' % tag)
    mon.close(a['tau'][nz], p['rhoa'] * a['ustar'][nz] ** 2, 'stress', rtol=1e-9, atol=1e-12, msg='stress %s' % tag)
    mon.sig(kind, '2d' if c['ny'] else '1d', 'veg' if rho.any() else 'bare', 'calm' if not nz.any() else '')


def seeds(c, mon, p, st, dt, tag, tal):
    b, a = st
    n = YEAR / dt
    g0 = b['rhoveg'] > 0
    mon.check(np.isin(a['germinate'], (0., 1.)).all() and np.isin(a['lateral'], (0., 1.)).all(), 'flags', 'germination flags are not 0 or 1 %s' % tag)
    mon.check((a['germinate'][g0] == 1).all(), 'existing', 'existing plants not flagged %s' % tag)
    new = (a['germinate'] > 0) & ~g0
    mon.check(not (new & (b['dzbveg'] < 0)).any(), 'germination-erosion', 'germination on an eroding bed %s' % tag)
    pg = 1 - (1 - p['germinate']) ** (1. / n)
    if p['germinate'] == 0:
        mon.check(not new.any(), 'no-germination', 'germination with zero probability %s' % tag)
    elig = ~g0 & (b['dzbveg'] >= 0)
    tal['n'] += new.sum()
    tal['want'] += elig.sum() * pg
    tal['var'] += elig.sum() * pg * (1 - pg)
    tal['hist'].append((new, elig * pg))
    rho = b['rhoveg']
    k = np.zeros(rho.shape)
    k[:, 1:] += rho[:, :-1] > rho[:, 1:]
    k[:, :-1] += rho[:, 1:] > rho[:, :-1]
    k[1:] += rho[:-1] > rho[1:]
    k[:-1] += rho[1:] > rho[:-1]
    lat = (a['lateral'] > 0) & ~(b['lateral'] > 0)
    mon.check(not (lat & (k == 0)).any(), 'spreading-source', 'spreading to a cell without denser neighbour %s' % tag)
    if p['lateral'] == 0:
        mon.check(not lat.any(), 'no-spreading', 'spreading with zero probability %s' % tag)
    if c['mode'] == 'tally':
        pl = 1 - (1 - p['lateral']) ** (1. / n)
        pc = np.minimum(k * (1 - (1 - pl) ** (1. / c['dx'])), 1.)
        e = ~(b['lateral'] > 0)
        tal['ln'] += lat.sum()
        tal['lwant'] += pc[e].sum()
        tal['lvar'] += (pc * (1 - pc))[e].sum()


def growth(c, mon, p, g, b, a, dt, tag, duran):
    hmax = p['hveg_max']
    on = ((b['germinate'] != 0) | (b['lateral'] != 0)) & (p['V_ver'] > 0)
    if not duran:
        rate = np.where(on, p['V_ver'] * (1 - b['hveg'] / hmax) - np.abs(b['dzbveg'] - p['dzb_opt']) * p['veg_gamma'], 0.)
        h = np.clip(b['hveg'] + rate * dt / YEAR, 0., hmax)
        rho = (h / hmax) ** 2
    else:
        r0 = np.minimum(b['rhoveg'], p['rhoveg_max'])
        rate = np.where(on, (p['rhoveg_max'] - r0) / (p['t_veg'] / 365.) - p['v_gam'] / hmax * np.abs(b['dzbveg'] - p['dzb_opt']) * p['veg_gamma'], 0.)
        rho = np.clip(r0 + rate * dt / YEAR, 0., p['rhoveg_max'])
        rho[r0 <= 0] = 0.
        h = hmax * np.sqrt(rho)
    dead = b['zb'] < p['veg_min_elevation']
    if p['process_tide']:
        dead = dead | (b['zb'] + .01 < b['zs'])
    edge = np.abs(b['zb'] + .01 - b['zs']) < 1e-9
    rho[dead] = 0.
    h[dead] = 0.
    ok = ~edge
    mon.close(a['hveg'][ok], h[ok], 'growth', rtol=1e-9, atol=1e-12, msg='plant height %s' % tag)
    mon.close(a['rhoveg'][ok], rho[ok], 'growth', rtol=1e-9, atol=1e-12, msg='plant cover %s' % tag)
    gone = a['rhoveg'] == 0
    mon.check(not a['germinate'][gone].any() and not a['lateral'][gone].any(), 'regerminate', 'dead cells are still flagged as germinated %s' % tag)
    mon.sig('duran' if duran else 'orig', 'grow' if (a['rhoveg'] > b['rhoveg']).any() else '', 'shrink' if (a['rhoveg'] < b['rhoveg']).any() else '',
            'dead' if dead.any() else '', 'new' if ((b['rhoveg'] == 0) & (a['rhoveg'] > 0)).any() else '')


warmup = gen.warmup
