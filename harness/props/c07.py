"""Wind at a point in time: record interpolation, direction convention, decomposition, friction velocity."""
import numpy as np
from harness import gen, trace

ID = 'C07'
N_QUICK, N_THOROUGH = 180, 3600
RULE = ('Random wind records (irregular times, repeated directions, crossings through north, calms, start after zero, '
        'runs several times longer than the record), both direction conventions, rotated and unrotated grids, all bed '
        'roughness methods, winds imposed through the coupling interface; after every step the free-stream wind is '
        'recomputed from the record.')
ASSUMPTIONS = ['wind speeds in the record are non-negative']

ROUGH = ('constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive',
         'constant')


def case(rng, k):
    c = gen.base_case(rng, wind='const', grain=gen.pick(rng, '1d', '1d', 'bedcomp'))
    c['dt'] = gen.pick(rng, 1., 7., 60., 613., 3600.)
    c['steps'] = rng.randint(4, 12)
    if rng.random() < .3 and c['ny'] > 0:
        c['rot'] = round(rng.uniform(-80, 80), 2)
    cfg = dict(method_roughness=ROUGH[k % len(ROUGH)])
    if cfg['method_roughness'] == 'mean_grainsize_initial' and c['grain'] == '2d':
        c['grain'] = '1d'
    if rng.random() < .5:
        cfg['alfa'] = round(gen.pick(rng, rng.uniform(-180, 180), 90., 45., 0.), 2)
    for nm, lo, hi in (('z', 1.5, 20.), ('k', .0003, .02), ('kappa', .38, .42), ('rhoa', 1.1, 1.35)):
        if rng.random() < .3:
            cfg[nm] = round(rng.uniform(lo, hi), 5)
    if rng.random() < .3:
        cfg['wind_convention'] = 'cartesian'
    n = rng.choice((2, 3, 5, 9))
    T = c['dt'] * c['steps'] * gen.pick(rng, .2, .5, 1.5)
    T0 = gen.pick(rng, 0., 0., 0., round(.05 * T, 3))
    t = sorted(round(rng.uniform(0, T), 3) for _ in range(n - 2))
    t = [T0] + [round(T0 + v, 3) for v in t] + [round(T0 + T + 1., 3)]
    rec = []
    d = rng.uniform(0, 360)
    sp = rng.uniform(0, 25)
    for v in t:
        if rng.random() < .8:
            d = gen.pick(rng, rng.uniform(0, 360), 0., 270., 350. + rng.uniform(-5, 25), rng.uniform(-10, 10))
            sp = gen.pick(rng, rng.uniform(0, 25), rng.uniform(0, 25), 0.)
        if not rec or v > rec[-1][0]:
            rec.append([v, round(sp, 3), round(d, 3)])
    c['rec'] = rec
    if rng.random() < .25:
        c['imposed'] = [[round(rng.uniform(0, 25), 2), round(rng.uniform(0, 360), 2)] for _ in range(c['steps'])]
        cfg['process_wind'] = False
    if rng.random() < .2:
        cfg['scheme'] = 'euler_forward'
    cfg['wind_file'] = 'rec.txt'
    c['cfg'] = cfg
    if rng.random() < .12:
        c['empty'] = True
    return c


def reference(rec, t, conv):
    """Speed and direction at time t; the record repeats, its end and start being one second apart."""
    T = [r[0] for r in rec]
    per = T[-1] - T[0] + 1.
    x = T[0] + ((t - T[0]) % per)
    D = []
    for r in rec:
        d = r[2]
        if conv == 'nautical':
            d = .01 if d == 0 else d
        else:
            d = 270. - (270.01 if d == 270 else d)
        D.append(np.deg2rad(d))
    U = [r[1] for r in rec]

    def lin(y):
        if x >= T[-1]:
            return y[-1]
        i = max(j for j in range(len(T)) if T[j] <= x)
        w = (x - T[i]) / (T[i + 1] - T[i])
        return y[i] * (1 - w) + y[i + 1] * w
    return lin(U), lin(np.sin(D)), lin(np.cos(D)), x


def z0ref(p, top):
    g = np.asarray(p['grain_size'], dtype=float)
    mth = p['method_roughness']
    if mth == 'constant':
        return p['k']
    if mth == 'constant_nikuradse':
        return p['k'] / 30.
    if mth == 'mean_grainsize_initial':
        return float(np.sum(g * np.asarray(p['grain_dist']))) / 30.
    w = top / top.sum(-1, keepdims=True)
    if mth == 'mean_grainsize_adaptive':
        return (w * g).sum(-1) / 30.
    cw = np.concatenate([np.zeros(w.shape[:-1] + (1,)), np.cumsum(w, -1)], -1)
    gg = np.concatenate([[0.], g])
    d50 = np.empty(w.shape[:-1])
    for ix in np.ndindex(*d50.shape):
        d50[ix] = np.interp(.5, cw[ix], gg)
    return 2. * d50 / 30.


def run(c, mon):
    np.savetxt('rec.txt', np.array(c['rec']), fmt='%.6f')
    m = gen.make_model(c)
    p = m.p
    names = ('uw', 'udir', 'uws', 'uwn', 'ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun', 'ustar0', 'tau0', 'taus0', 'taun0', 'mass')
    conv = p['wind_convention']
    with trace.Tracer({'interpolate': names}) as tr:
        for i in range(c['steps']):
            if c.get('imposed'):
                u, d = c['imposed'][i]
                m.set_var('uw', np.zeros(m.s['uw'].shape) + u)
                m.set_var('udir', np.zeros(m.s['uw'].shape) + d)
            t = m.t
            top = m.s['mass'][:, :, 0, :].copy()
            m.update()
            if m.t - t > c['dt'] * 1.0001:
                mon.fail('clock', 'step longer than configured')
            mon.ev('steps')
            log = tr.take()
            tag = 'step %d t=%r' % (i, t)
            if c.get('imposed'):
                sn, cs, x = np.sin(np.deg2rad(d)), np.cos(np.deg2rad(d)), 0
            else:
                u, sn, cs, x = reference(c['rec'], t, conv)
            amp = np.hypot(sn, cs)
            if amp < 1e-6:
                mon.note('direction undefined between opposite winds')
                continue
            a = np.deg2rad(p['alfa'])
            dirr = np.arctan2(sn, cs)
            us, un = -u * np.sin(dirr - a), -u * np.cos(dirr - a)
            at = 1e-9 * max(u, 1.) / amp
            s = m.s
            tot = dict(uw=u, uws=us, uwn=un)
            for nm, ref in tot.items():
                mon.close(s[nm], np.zeros(s[nm].shape) + ref, 'wind-' + nm, rtol=1e-8, atol=at, msg='%s %s' % (nm, tag))
            mon.close(np.sin(np.deg2rad(s['udir'])), np.zeros(s['uw'].shape) + np.sin(dirr), 'wind-dir', rtol=0, atol=1e-8 / amp, msg='direction %s' % tag)
            mon.close(np.cos(np.deg2rad(s['udir'])), np.zeros(s['uw'].shape) + np.cos(dirr), 'wind-dir', rtol=0, atol=1e-8 / amp, msg='direction %s' % tag)
            # friction velocity and stress of the undisturbed wind
            k = p['kappa'] / np.log(p['z'] / z0ref(p, top))
            kk = k + np.zeros(s['uw'].shape)
            mon.close(s['ustars'], kk * us, 'friction-velocity', rtol=1e-8, atol=at, msg='s-component of friction velocity %s' % tag)
            mon.close(s['ustarn'], kk * un, 'friction-velocity', rtol=1e-8, atol=at, msg='n-component of friction velocity %s' % tag)
            mon.close(s['ustar'], kk * u, 'friction-velocity', rtol=1e-8, atol=at, msg='friction velocity %s' % tag)
            mon.close(s['ustar0'], kk * u, 'friction-velocity0', rtol=1e-8, atol=at, msg='undisturbed friction velocity %s' % tag)
            tau = p['rhoa'] * (kk * u) ** 2
            for nm, ref in (('tau', tau), ('taus', tau * (us / u if u else 0)), ('taun', tau * (un / u if u else 0)),
                            ('tau0', tau), ('taus0', tau * (us / u if u else 0)), ('taun0', tau * (un / u if u else 0))):
                mon.close(s[nm], ref, 'stress', rtol=1e-8, atol=at, msg='%s %s' % (nm, tag))
            if log:
                # what the rest of the step was given, before any turning of the grid
                b = log[0][2]
                mon.close(b['uws'], us, 'given', rtol=1e-8, atol=at, msg='wind given to the step %s' % tag)
            T = [r[0] for r in c['rec']]
            mon.sig(conv, p['method_roughness'], 'imposed' if c.get('imposed') else
                    'before' if t < T[0] else 'wrapped' if t > T[-1] else 'within', 'calm' if u == 0 else '',
                    'alfa' if p['alfa'] else '', 'rot' if c['rot'] else '', '2d' if p['ny'] else '1d')


warmup = gen.warmup
