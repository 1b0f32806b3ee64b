"""Wind over topography: shear stress field."""
import copy
import numpy as np
from harness import gen, trace, rt

ID = 'C08'
N_QUICK, N_THOROUGH = 120, 2000
RULE = ('Real models with the shear solvers on: 1-D profiles under turning and reversing wind, 2-D flat beds at arbitrary '
        'datum / grid angle / roughness map / wind direction, humps and ridges in twin runs (raised datum, doubled wind, '
        'mirrored beach, shifted coordinates), flow separation, vegetation and fences on top.')
ASSUMPTIONS = ['2-D twin runs use one step from the same initial state']
MODES = ('one', 'flat', 'twin', 'sep', 'twin', 'mix')


def case(rng, k):
    mode = MODES[k % len(MODES)]
    two = mode in ('flat', 'twin') or (mode != 'one' and rng.random() < .5)
    c = gen.base_case(rng, '2d' if two else '1d', grain='1d', nf=1, nl=2, wind=gen.pick(rng, 'const', 'turn', 'gust'))
    c['mode'] = mode
    c['steps'] = rng.randint(1, 3) if two else rng.randint(2, 6)
    c['umax'] = round(rng.uniform(3, 20), 2)
    c['udir'] = round(gen.pick(rng, rng.uniform(190, 350), rng.uniform(10, 170), 270., 90.), 2)
    c['dt'] = gen.pick(rng, 1., 60.)
    c['profile'] = gen.pick(rng, 'dune', 'bumps', 'ridge', 'beach', 'step')
    cfg = dict(process_shear=True)
    if two:
        c['nx'], c['ny'] = rng.randint(15, 40), rng.randint(8, 24)
        c['dx'] = gen.pick(rng, 1., 2., 2.5)
        c['dy'] = gen.pick(rng, c['dx'], 1., 2.)
        cfg.update(dx=c['dx'], dy=c['dy'], buffer_width=gen.pick(rng, 20., 60., 100.), L=gen.pick(rng, 50., 100., 200.))
        if rng.random() < .5:
            cfg['l'] = gen.pick(rng, 5., 10.)
    if mode == 'flat':
        c['profile'] = 'flat'
        c['zoff'] = round(rng.uniform(-5, 20), 2)
        c['rot'] = gen.pick(rng, 0., 0., round(rng.uniform(-60, 60), 1))
        if rng.random() < .3:
            cfg['method_roughness'] = gen.pick(rng, 'mean_grainsize_adaptive', 'median_grainsize_adaptive')
        cfg['process_separation'] = rng.random() < .3
    elif mode == 'twin':
        c['profile'] = gen.pick(rng, 'hump', 'hump', 'ridge', 'dune')
        c['twin'] = gen.pick(rng, 'datum', 'wind', 'mirror', 'shift')
        c['steps'] = 1
        c['wind'] = 'const'
        if c['twin'] == 'mirror':
            c['udir'] = gen.pick(rng, 270., 90., 270.)
    elif mode == 'sep':
        cfg['process_separation'] = True
        c['profile'] = gen.pick(rng, 'dune', 'step', 'ridge')
        c['amp'] = round(rng.uniform(.5, 3.), 2)
        if rng.random() < .3:
            cfg['sep_filter_iterations'] = 0
        if rng.random() < .3:
            cfg['zsep_y_filter'] = True
    elif mode == 'mix':
        c['series'] = gen.pick(rng, {'veg': .8}, {'fence': 1.}, {'veg': .5, 'fence': .8}, {'ne': .05})
    if mode in ('one', 'flat', 'sep') and rng.random() < .5:
        # other processes act on top of the wind field, not on how it responds to the bed
        c['series'] = gen.pick(rng, {'veg': .8}, {'veg': .8}, {'fence': 1.}, {'tide': [-.5, .5, 1.]}, {'ne': .05})
        cfg.update(gen.pick(rng, {}, {'process_avalanche': True}, {'process_moist': True}, {'process_bedupdate': False}))
    c['cfg'] = cfg
    return c


def one_dim(z, dx, down):
    """Stress over undisturbed stress for a transect (wind along +x unless `down`)."""
    if down:
        z = z[::-1]
    n = len(z)
    dz = np.zeros(n)
    dz[1:-1] = (z[2:] - z[:-2]) / (2 * dx)
    i = np.arange(n)
    J = i[:, None] - i[None, :]
    with np.errstate(divide='ignore'):
        K = np.where(J == 0, 0., 1. / (np.pi * np.where(J == 0, 1, J)))
    r = np.maximum(.1, 1. + 3. * (K @ dz + dz))
    return r[::-1] if down else r


def consistent(mon, s, p, tag):
    if p['process_fences'] or p['process_vegetation']:
        # fences and vegetation leave a small friction velocity without a
        # direction where none was left (in a separation bubble, say)
        at = (s['ustar'] <= .01 + 1e-9) & (s['tau'] == 0.)
        s = dict(s, ustar=np.where(at, 0., s['ustar']), ustars=np.where(at, 0., s['ustars']), ustarn=np.where(at, 0., s['ustarn']))
    mon.close(s['tau'], p['rhoa'] * s['ustar'] ** 2, 'stress-velocity', rtol=1e-9, atol=1e-12, msg='stress vs friction velocity %s' % tag)
    mon.close(s['tau'], np.hypot(s['taus'], s['taun']), 'stress-norm', rtol=1e-8, atol=1e-12, msg='stress vs its components %s' % tag)
    mon.close(s['ustar'], np.hypot(s['ustars'], s['ustarn']), 'velocity-norm', rtol=1e-8, atol=1e-12, msg='friction velocity vs its components %s' % tag)
    mon.close(s['taus'] * s['ustarn'], s['taun'] * s['ustars'], 'parallel', rtol=1e-8, atol=1e-10, msg='direction of stress and friction velocity %s' % tag)
    mon.check((s['taus'] * s['ustars'] + s['taun'] * s['ustarn'] >= -1e-12).all(), 'parallel', 'stress opposes friction velocity %s' % tag)
    for nm in ('tau', 'ustar', 'taus', 'taun'):
        mon.finite(s[nm], 'finite', '%s %s' % (nm, tag))


def make(c, mut=None):
    from aeolis.model import AeoLiS
    base = dict(c)
    if c['profile'] == 'hump':
        base['profile'] = 'flat'
    cfg, arr = gen.build(base)
    if c['profile'] == 'hump':
        r = np.random.RandomState(c['seed'])
        X, Y = np.meshgrid(np.arange(c['nx'] + 1) * c['dx'], np.arange(c['ny'] + 1) * c['dy'])
        x0, y0 = X.max() * r.uniform(.3, .7), Y.max() * r.uniform(.3, .7)
        arr['bed'] = c['zoff'] + c['amp'] * np.exp(-((X - x0) ** 2 + (Y - y0) ** 2) / (2 * (3 * c['dx']) ** 2))
    if mut:
        mut(cfg, arr)
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def run(c, mon):
    m = make(c)
    p = m.p
    mode = c['mode']
    names = ('tau', 'taus', 'taun', 'ustar', 'ustars', 'ustarn', 'zb', 'zsep', 'hsep', 'udir')
    with trace.Tracer({'shear': names}) as tr:
        for i in range(c['steps']):
            zb = m.s['zb'].copy()
            m.update()
            mon.ev('steps')
            s = m.s
            tag = 'step %d' % i
            log = tr.take()
            if np.sum(s['uw']) == 0:
                continue
            consistent(mon, s, p, tag)
            if log:
                consistent(mon, log[-1][2], p, 'behind the shear model, ' + tag)
            pure = mode in ('one', 'flat', 'twin')
            if p['ny'] == 0 and mode in ('one', 'sep'):
                src = log[-1][1] if log else {'tau': s['tau0'], 'taus': s['taus0'], 'taun': s['taun0']}
                out = log[-1][2] if log else s
                down = src['taus'].sum() < 0
                r = one_dim(zb[0], c['dx'], down)
                if mode == 'one':
                    for nm in ('tau', 'taus', 'taun'):
                        mon.close(out[nm][0], src[nm][0] * r, 'transect', rtol=1e-8, atol=1e-12, msg='%s over a transect %s' % (nm, tag))
                    mon.ev('transect_cells', r.size)
                else:
                    hs = s['zsep'] - zb
                    red = np.clip(1. - 10. * hs[0], 0., 1.)
                    for nm in ('taus', 'taun', 'tau'):
                        mon.close(out[nm][0], src[nm][0] * r * red, 'sheltered', rtol=1e-8, atol=1e-10, msg='%s below the separation surface %s' % (nm, tag))
                mon.sig(mode, 'down' if down else 'up', 'capped' if (r == .1).any() else '', 'hill' if (r > 1.2).any() else '',
                        c['profile'], *sorted(c.get('series', {})))
            if mode == 'flat' and np.ptp(zb) == 0:
                for nm in ('taus', 'taun', 'ustars', 'ustarn'):
                    ref = s['taus0' if nm == 'taus' else 'taun0'] if nm in ('taus', 'taun') else None
                    if ref is not None and 'adaptive' not in p['method_roughness']:
                        if log:
                            mon.close(log[-1][2][nm], log[-1][1][nm], 'flat-bed', rtol=1e-7, atol=1e-9, msg='%s behind the shear model over a flat bed %s' % (nm, tag))
                        if not c.get('series'):
                            mon.close(s[nm], ref, 'flat-bed', rtol=1e-7, atol=1e-9, msg='%s over a flat bed at %g m %s' % (nm, c['zoff'], tag))
                mon.sig(mode, 'rot' if c['rot'] else '', p['method_roughness'], int(c['udir'] // 30), 'sep' if p['process_separation'] else '')
            if p['process_separation'] and mode == 'sep':
                mon.check((s['zsep'] >= zb - 1e-9).all() or p['ny'] > 0, 'above-bed', lambda: 'separation surface %g below the bed %s' % (
                    (zb - s['zsep']).max(), tag))
                mon.check((s['hsep'] >= -1e-9).all(), 'above-bed', lambda: 'height of the separation surface %g %s' % (s['hsep'].min(), tag))
                mon.close(s['zsep'] - s['hsep'], zb, 'above-bed', rtol=0, atol=1e-9, msg='separation surface minus its height %s' % tag)
                mon.sig(mode, '2d' if p['ny'] else '1d', 'bubble' if (s['hsep'] > 1e-3).any() else '', c['profile'],
                        'behind' if (s['hsep'] > .1).any() else '')
            if mode == 'mix':
                mon.sig(mode, '2d' if p['ny'] else '1d', *sorted(c['series']))
    if mode != 'twin':
        return
    a = {n: m.s[n].copy() for n in names}
    t0 = np.hypot(m.s['taus0'], m.s['taun0']).max()
    if t0 == 0:
        return
    mon.check(abs(a['tau'] - t0).max() > 1e-4 * t0, 'responds', 'topography leaves the stress undisturbed')
    tw = c['twin']

    def mut(cfg, arr):
        if tw == 'datum':
            arr['bed'] = arr['bed'] + 7.5
        elif tw == 'wind':
            arr['wind'] = arr['wind'] * np.array([1., 2., 1.])
        elif tw == 'mirror':
            arr['bed'] = arr['bed'][::-1]
        else:
            arr['x'] = arr['x'] + 40. * c['dx']
            arr['y'] = arr['y'] - 20. * c['dy']
    m2 = make(c, mut)
    m2.update()
    b = m2.s
    f = {'wind': 4.}.get(tw, 1.)
    fl = (lambda v: v[::-1]) if tw == 'mirror' else (lambda v: v)
    sgn = -1. if tw == 'mirror' else 1.
    tol = dict(rtol=1e-6, atol=(2e-3 if tw == 'mirror' else 1e-6) * t0 * f)   # the computational grid is not quite symmetric
    for nm, g in (('taus', 1.), ('taun', sgn)):
        got, want = b[nm], g * f * fl(a[nm])
        if tw == 'mirror':
            # ... and a few cells at the border of the added buffer may differ more
            d = abs(got - want)
            few = (d > tol['atol']) & (d <= .1 * t0)
            if few.mean() <= .02:
                got = np.where(few, want, got)
        mon.close(got, want, 'twin-' + tw, msg=nm + ' in the twin run', **tol)
    if c['profile'] == 'hump' and tw != 'mirror':
        # acceleration on the windward side compared with the lee
        X, Y = m.s['x'], m.s['y']
        j = np.unravel_index(np.argmax(m.s['zb']), X.shape)
        d = np.deg2rad(270. - c['udir'])
        al = (X - X[j]) * np.cos(d) + (Y - Y[j]) * np.sin(d)
        ac = -(X - X[j]) * np.sin(d) + (Y - Y[j]) * np.cos(d)
        w = c['dx'] * 3
        core = (abs(ac) < w) & (abs(al) < 1.5 * w) & (abs(al) > .3 * w)
        ww, lee = a['tau'][core & (al < 0)], a['tau'][core & (al > 0)]
        if ww.size > 3 and lee.size > 3:
            mon.check(ww.mean() > lee.mean(), 'windward', lambda: 'mean stress windward %g, lee %g, undisturbed %g' % (ww.mean(), lee.mean(), t0))
    mon.sig('twin', tw, c['profile'], int(c['udir'] // 45))


warmup = gen.warmup
