"""Water levels, waves and run-up."""
import numpy as np
from harness import gen, trace

ID = 'C12'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random models with every combination of tide, waves, run-up, groundwater (which evaluates them at sub-steps) and '
        'multiplicative/additive masks, irregular records shorter and longer than the run, and water levels or waves imposed by '
        'a coupled model; every evaluation of the hydrodynamics is recomputed from the record and the bed.')
ASSUMPTIONS = ['imposed fields are renewed before every step, as a coupled model does']

NAMES = ('zb', 'SWL', 'zs', 'Hs', 'Tp', 'R', 'eta', 'sigma_s', 'TWL', 'DSWL', 'Hsmix')


def record(rng, T, vals):
    n = rng.choice((2, 3, 4, 7))
    L = T * gen.pick(rng, .15, .4, 1., 1.5) + 5.
    t0 = gen.pick(rng, 0., 0., round(.1 * T, 2))
    t = sorted(set([t0, round(t0 + L, 2)] + [round(t0 + rng.uniform(0, L), 2) for _ in range(n - 2)]))
    return [[v] + [f() for f in vals] for v in t]


def case(rng, k):
    c = gen.base_case(rng, profile=gen.pick(rng, 'beach', 'beach', 'dune', 'bumps', 'ridge'), nf=1, nl=1, grain='1d')
    if c['ny'] and rng.random() < .4:
        c['rot'] = round(rng.uniform(-80, 80), 2)
    c['steps'] = rng.randint(2, 8)
    cfg = {}
    T = c['dt'] * c['steps']
    cfg['process_tide'] = rng.random() < .85
    cfg['process_wave'] = rng.random() < .75
    cfg['process_runup'] = rng.random() < .65
    c['tide'] = record(rng, T, [lambda: round(rng.uniform(-1.5, 2.), 3)]) if rng.random() < .9 else None
    c['wave'] = record(rng, T, [lambda: round(gen.pick(rng, rng.uniform(0, 4), 0.), 3), lambda: round(gen.pick(rng, rng.uniform(2, 14), rng.uniform(2, 14), 0.), 3)]) if rng.random() < .9 else None
    if c['tide']:
        cfg['tide_file'] = 'tide.txt'
    if c['wave']:
        cfg['wave_file'] = 'wave.txt'
    if rng.random() < .5:
        cfg['gamma'] = round(rng.uniform(.3, 1.2), 3)
    if rng.random() < .6:
        cfg['beach_slope'] = round(gen.pick(rng, rng.uniform(.005, .05), rng.uniform(.05, .2)), 4)
    c['series'] = {}
    for m in ('tide', 'wave', 'runup'):
        if rng.random() < .35:
            c['series'][m + '_mask'] = [round(rng.uniform(0, 1), 3), round(rng.uniform(0, 1.), 3)]
    c['ext'] = gen.pick(rng, None, None, None, None, 'zs', 'waves')
    if c['ext'] == 'zs':
        cfg['process_tide'] = True
        cfg['external_vars'] = ['zs']
    elif c['ext'] == 'waves':
        cfg['external_vars'] = ['Hs', 'Tp']
    if c['ext'] is None and c['ny'] == 0 and c['profile'] == 'beach' and rng.random() < .3 and c['dt'] >= 30 and c['dx'] >= 2:
        cfg.update(process_groundwater=True, tfac_gw=10, Cl_gw=0.01)
    c['cfg'] = cfg
    return c


def interp(rec, t, col):
    per = rec[-1][0] - rec[0][0] + 1.
    x = rec[0][0] + ((t - rec[0][0]) % per)
    if x >= rec[-1][0]:
        return rec[-1][col]
    for a, b in zip(rec[:-1], rec[1:]):
        if a[0] <= x < b[0]:
            return a[col] + (b[col] - a[col]) * (x - a[0]) / (b[0] - a[0])


def stockdon(H, T, beta):
    """Run-up exceeded by 2% of the waves, set-up and swash (Stockdon et al., 2006; documented formulas)."""
    if H <= 0 or T <= 0 or beta <= 0:
        return 0., 0., 0., 1.
    L = 9.81 * T ** 2 / (2 * np.pi)
    xi = beta / np.sqrt(H / L)
    q = np.sqrt(H * L)
    if xi < .3:
        return .043 * q, .02 * q, .023 * q, xi
    eta = .35 * beta * q
    sig = q * np.sqrt(.563 * beta ** 2 + .0004) / 2.
    return 1.1 * (eta + sig), eta, sig, xi


def run(c, mon):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    for nm in ('tide', 'wave'):
        if c[nm]:
            arr[nm] = np.array(c[nm])
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    p = m.p
    shape = m.s['zb'].shape
    mask = {}
    for nm in ('tide', 'wave', 'runup'):
        mk = arr.get(nm + '_mask')
        mask[nm] = (np.real(mk), np.imag(mk)) if mk is not None else (np.ones(shape), np.zeros(shape))
    gamma = p['gamma']
    beta = p['beach_slope']
    r = np.random.RandomState(c['seed'] + 5)
    with trace.Tracer({'hinterp': NAMES}) as tr:
        for i in range(c['steps']):
            if c['ext'] == 'zs':
                lvl = np.zeros(shape) + m.s['zb'].min() + r.uniform(.05, 1.5) + (r.uniform(-.02, .02, shape) if r.rand() < .5 else 0.)
                given = lvl.copy()
                m.set_var('zs', lvl)
            elif c['ext'] == 'waves':
                gH, gT = r.uniform(0, 3, shape) * (r.rand(*shape) < .8), r.uniform(2, 14, shape)
                m.set_var('Hs', gH.copy())
                m.set_var('Tp', gT.copy())
            m.update()
            for st, b, a, args in tr.take():
                t = args[2]
                tag = 't=%g' % t
                zb = b['zb']
                mon.ev('hydrodynamic evaluations')
                mon.close(a['zb'], zb, 'bed-kept', rtol=0, atol=0, msg='bed level %s' % tag)
                # still water level
                if c['ext'] == 'zs':
                    lv = given * mask['tide'][0] + mask['tide'][1]
                    wet = lv - zb > 2 * p['eps']
                    if not wet.any():
                        mon.note('nothing wet')
                        return
                    mon.close(a['SWL'][wet], lv[wet], 'still-water', rtol=1e-9, atol=1e-9, msg='imposed level %s' % tag)
                    ii = np.argwhere(wet)
                    for j in np.argwhere(~wet):
                        d2 = ((ii - j) ** 2).sum(axis=1)
                        near = ii[d2 == d2.min()]
                        mon.check(any(abs(a['SWL'][tuple(j)] - lv[tuple(q)]) < 1e-9 for q in near), 'still-water-dry',
                                  lambda: 'dry cell %s: level %g is not that of the nearest wet cell %s' % (tuple(j), a['SWL'][tuple(j)], tag))
                    mon.sig('imposed', 'dry' if (~wet).any() else 'allwet')
                elif p['process_tide']:
                    lv = interp(c['tide'], t, 1) if c['tide'] else 0.
                    mon.close(a['SWL'], lv * mask['tide'][0] + mask['tide'][1], 'still-water', rtol=1e-9, atol=1e-9, msg='still water level %s' % tag)
                else:
                    mon.close(a['SWL'], 0. * zb, 'still-water', rtol=0, atol=0, msg='still water level without tide %s' % tag)
                swl = a['SWL']
                mon.close(a['zs'], np.maximum(swl, zb), 'water-surface', rtol=1e-12, atol=1e-12, msg='water surface %s' % tag)
                # waves
                wv = bool(p['process_wave'] and c['wave'])
                h = np.maximum(0., swl - zb)
                if c['ext'] == 'waves':
                    H = gH * mask['wave'][0] + mask['wave'][1]
                    P = gT * mask['wave'][0] + mask['wave'][1]
                elif wv:
                    H = np.minimum(gamma * h, interp(c['wave'], t, 1)) * mask['wave'][0] + mask['wave'][1]
                    P = np.zeros(shape) + interp(c['wave'], t, 2) * mask['wave'][0] + mask['wave'][1]
                else:
                    H, P = 0. * zb, 0. * zb
                mon.close(a['Hs'], H, 'wave-height', rtol=1e-9, atol=1e-9, msg='wave height %s' % tag)
                mon.close(a['Tp'], P, 'wave-period', rtol=1e-9, atol=1e-9, msg='wave period %s' % tag)
                # run-up
                if p['process_runup']:
                    R, E, S, K = np.zeros(shape), np.zeros(shape), np.zeros(shape), np.zeros(shape)
                    for iy in range(shape[0]):
                        for ix in range(shape[1]):
                            q = (iy, ix) if c['ext'] == 'waves' else (iy, 0)
                            R[iy, ix], E[iy, ix], S[iy, ix], K[iy, ix] = stockdon(H[q], P[q], beta)
                    if (abs(K - .3) < 1e-9).any():
                        mon.note('on the transition')
                        return
                    Rm = R * mask['runup'][0] + mask['runup'][1]
                    Em = E * mask['runup'][0] + mask['runup'][1]
                    mon.close(a['R'], Rm, 'run-up', rtol=1e-9, atol=1e-9, msg='run-up %s' % tag)
                    mon.close(a['TWL'], swl + Rm, 'total-level', rtol=1e-9, atol=1e-9, msg='total water level %s' % tag)
                    if c['ext'] != 'waves':
                        mon.close(a['eta'], Em, 'set-up', rtol=1e-9, atol=1e-9, msg='set-up %s' % tag)
                        mon.close(a['sigma_s'], S, 'swash', rtol=1e-9, atol=1e-9, msg='swash %s' % tag)
                        mon.close(a['DSWL'], swl + Em, 'dynamic-level', rtol=1e-9, atol=1e-9, msg='dynamic water level %s' % tag)
                    if mask['runup'][1].max() == 0:
                        mon.check((a['TWL'] >= swl - 1e-12).all(), 'level-order', 'total water level below the still water level %s' % tag)
                    mon.sig('runup', 'dissipative' if (R > 0).any() and (K < .3).all() else ('reflective' if (R > 0).any() else 'none'), c['ext'])
                else:
                    mon.close(a['TWL'], swl, 'total-level', rtol=1e-12, atol=1e-12, msg='total water level without run-up %s' % tag)
                    mon.close(a['DSWL'], swl, 'dynamic-level', rtol=1e-12, atol=1e-12, msg='dynamic water level without set-up %s' % tag)
                if wv:
                    hm = np.maximum(0., a['TWL'] - zb)
                    M = np.minimum(gamma * hm, interp(c['wave'], t, 1)) * mask['wave'][0] + mask['wave'][1]
                    mon.close(a['Hsmix'], M, 'mixing-height', rtol=1e-9, atol=1e-9, msg='wave height for mixing %s' % tag)
                mon.sig('tide' if p['process_tide'] else '-', 'wave' if wv else '-', 'runup' if p['process_runup'] else '-',
                        'masks%d' % len(c['series']), 'wet' if (swl > zb).any() else 'dry', '2d' if c['ny'] else '1d')
        if tr.missing:
            mon.note('stage missing: %s' % tr.missing)


warmup = gen.warmup
