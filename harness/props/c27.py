"""Marine side: wet bed reset and dune erosion."""
import math

import numpy as np
from harness import gen, trace

ID = 'C27'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random dunes in surges and storms, with random toe elevations, slopes, erosion coefficients and run-up; random wet beds away '
        'from their initial level; transects and coasts of different transects. Bed levels before and after the dune erosion and the '
        'reset of the wet bed are compared with an independent re-evaluation (Palmsten and Holman, 2012).')
ASSUMPTIONS = ['the sea lies at the first column', 'reset time longer than the time step', 'records of tide and waves are given']


def case(rng, k):
    c = gen.base_case(rng)
    c['kind'] = ('dune', 'reset', 'dune', 'both')[k % 4]
    c['nx'] = rng.randint(8, 40)
    c['ny'] = min(c['ny'], 5)
    c['dx'] = gen.pick(rng, .5, 1., 2., 5.)
    c['profile'] = gen.pick(rng, 'dune', 'dune', 'beach', 'step', 'ridge')
    c['slope'] = round(rng.uniform(.02, .15), 4)
    c['amp'] = round(rng.uniform(.3, 3.), 3)
    c['dt'] = gen.pick(rng, 10., 60., 600., 3600.)
    c['steps'] = rng.randint(2, 8)
    c['wind'] = gen.pick(rng, 'gust', 'ramp', 'const', 'calm')
    c['umax'] = gen.pick(rng, 5., 12., 20.)
    cfg = dict(process_tide=True, process_wave=True, process_runup=rng.random() < .8, process_avalanche=rng.random() < .4)
    if c['kind'] != 'reset':
        cfg.update(process_dune_erosion=True, dune_toe_elevation=round(rng.uniform(.2, 2.), 3),
                   beach_slope=round(rng.uniform(.02, .15), 4))
        if rng.random() < .8:
            cfg['Cs'] = round(10. ** rng.uniform(-4, -1.5), 7)
    if c['kind'] != 'dune':
        cfg.update(process_wet_bed_reset=True, Tbedreset=float(gen.pick(rng, 3601, 10000, 86400)))
    if rng.random() < .2:
        cfg['accfac'] = 5. if c['dt'] < 700 else 1.
    c['series'] = dict(tide=[round(rng.uniform(-.3, 1.5), 2), round(rng.uniform(.1, 1.), 2), 3.], wave=[gen.pick(rng, .3, 1., 2., 4.), gen.pick(rng, 4., 8., 12.)])
    if c['ny'] and rng.random() < .4:
        c['series']['runup_mask'] = [.5, .1]
    c['disturb'] = gen.pick(rng, 0., .05, .3)
    # time steps that differ from the configured one: asked for, cut off by the limit of the bed level change
    c['given_dt'] = rng.random() < .4
    if rng.random() < .2:
        cfg['max_bedlevel_change'] = gen.pick(rng, 1e-3, 1e-2)
    if c['ny'] and rng.random() < .35:
        # every transect with its own spacing
        c['fan'] = round(rng.uniform(.05, .3), 3)
        c.pop('rot', None)
    c['cfg'] = cfg
    return c


def cyclic(t, rec, col):
    x = rec[:, 0]
    if not x[0] <= t <= x[-1]:
        # the record repeats, its end and start being one second apart
        t = x[0] + (t - x[-1] - 1.) % (x[-1] - x[0] + 1.)
    return float(np.interp(t, x, rec[:, col]))


def normal(z):
    return .5 * math.erfc(-z / math.sqrt(2.))


def erosion(mon, b, a, p, t, tag):
    zb, za = b['zb'], a['zb']
    for k in b:
        if k != 'zb' and isinstance(b[k], np.ndarray):
            mon.check(np.array_equal(b[k], a[k], equal_nan=True), 'erosion-only-bed', lambda: 'dune erosion changes %s %s' % (k, tag))
    toe = p['dune_toe_elevation']
    wl = cyclic(t, p['tide_file'], 1)
    Tp = cyclic(t, p['wave_file'], 2)
    dt = p['dt_opt']
    mon.check((za <= zb + 1e-12).all(), 'erosion-lowers', lambda: 'dune erosion raises the bed by %g %s' % ((za - zb).max(), tag))
    hit = 0
    for i in range(zb.shape[0]):
        x, z, y = b['x'][i], zb[i], za[i]
        top = 1.26 * b['R'][i, 0] + wl
        if top <= toe:
            mon.check(abs(top - toe) < 1e-9 or np.array_equal(y, z), 'below-toe', lambda: 'dune erodes at %g, below its toe at %g %s' % (top, toe, tag))
            continue
        hit += 1
        d = np.abs(z - toe)
        st = int(d.argmin())
        if (np.sort(d)[1:2] - d.min() < 1e-9).any():
            mon.ev('ambiguous-toe')
            continue
        mon.check(np.array_equal(y[:st], z[:st]), 'seaward', lambda: 'dune erosion at cells seaward of the toe %d %s' % (st, tag))
        traj = np.minimum(z[st:], toe + .54 * p['beach_slope'] * (x[st:] - x[st]))
        dx = abs(x[1] - x[0])
        V = np.concatenate([[0.], np.cumsum(dx * (z[st + 1:] - traj[1:]))])
        sig = b['sigma_s'][i, 0]
        pc = 1. - normal((toe - b['eta'][i, 0] - wl) / sig) if sig > 0 else 1. * (b['eta'][i, 0] + wl > toe)
        dV = 4. * p['Cs'] * (top - toe) ** 2 * pc * dt / Tp
        n = int(np.abs(V - dV).argmin())
        lost = float(dx * (z - y).sum())
        near = np.sort(np.abs(V - dV))
        changed = np.nonzero(y != z)[0]
        want = z.copy()
        want[st:st + n] = traj[:n]
        mon.worst('eroded volume', lost)
        if len(near) > 1 and near[1] - near[0] < 1e-9 * max(1., dV):
            # flat beyond the scarp or half-way between cells: the number of cells is open
            mon.ev('ambiguous-scarp')
            ok = np.isclose(y, z, rtol=0, atol=1e-10) | np.isclose(y, np.concatenate([z[:st], traj]), rtol=0, atol=1e-10)
            mon.check(ok.all(), 'trajectory', lambda: 'bed between dune and trajectory of its toe %s' % tag)
            continue
        mon.check(np.allclose(y, want, rtol=0, atol=1e-9), 'dune-erosion', lambda: (
            'row %d: volume %g for %g given by the surge (%d cells from %d), cells changed %s, expected %g %s' % (
                i, lost, dV, n, st, changed.tolist()[:8], float(dx * (z - want).sum()), tag)))
        mon.ev('eval:surges')
        if n:
            mon.ev('scarps')
    mon.sig('erosion', 'hit%d' % min(hit, 3), 'rows%d' % zb.shape[0])


def reset(mon, b, a, p, tag):
    for k in b:
        if k != 'zb' and isinstance(b[k], np.ndarray):
            mon.check(np.array_equal(b[k], a[k], equal_nan=True), 'reset-only-bed', lambda: 'reset of the wet bed changes %s %s' % (k, tag))
    if not p.get('process_wet_bed_reset'):
        mon.check(np.array_equal(b['zb'], a['zb']), 'reset-off', lambda: 'bed reset without the process %s' % tag)
        return
    wet = b['zs'] > b['zb'] + .01
    sure = np.abs(b['zs'] - b['zb'] - .01) > 1e-9
    f = p['dt_opt'] / p['Tbedreset']
    want = np.where(wet, b['zb'] + (b['zb0'] - b['zb']) * f, b['zb'])
    mon.close(a['zb'][sure], want[sure], 'reset', rtol=1e-10, atol=1e-11, msg='reset of the wet bed %s' % tag)
    mon.sig('reset', 'wet' if wet.any() else 'dry', 'moved' if (np.abs(a['zb'] - b['zb']) > 1e-9).any() else '')
    mon.ev('wet cells', int(wet.sum()))


def run(c, mon):
    m = gen.make_model(c)
    r = np.random.RandomState(c['seed'] + 9)
    z0 = m.get_var('zb').copy()
    if c['disturb']:
        # a bed that has developed since the start
        m.set_var('zb', z0 + c['disturb'] * r.uniform(-1, 1, z0.shape))
    names = None
    with trace.Tracer({'erosion': names, 'wetreset': names}) as tr:
        for i in range(c['steps']):
            p = m.p
            z, t = m.s['zb'].copy(), m.t
            uw = None
            m.update(c['dt'] * r.uniform(.05, .9)) if c['given_dt'] and r.rand() < .6 else m.update()
            mon.check(np.array_equal(m.s['zb0'], z0), 'initial-bed', 'initial bed changed')
            seen = set()
            for st, b, a, args in tr.take():
                seen.add(st)
                if st == 'erosion':
                    erosion(mon, b, a, p, t, 'step %d' % i)
                else:
                    reset(mon, b, a, p, 'step %d' % i)
            if m.t == t:
                continue
            want = bool(c['cfg'].get('process_dune_erosion'))
            if 'erosion' in seen and not want:
                mon.check(False, 'erosion-called', 'dune erosion without the process')
            elif want and 'erosion' not in seen and not tr.missing:
                # skipped: is there nothing to erode?
                import copy
                import aeolis.erosion
                s = copy.deepcopy(m.s)
                aeolis.erosion.run_ph12(s, m.p, t)
                mon.check(np.allclose(s['zb'], m.s['zb'], rtol=0, atol=1e-9), 'erosion-called', 'dune erosion skipped in a surge')
                tr.take()
            if c['disturb'] and r.rand() < .4:
                m.set_var('zb', m.s['zb'] + c['disturb'] * r.uniform(-.3, .3, z.shape))
    if c['cfg'].get('process_dune_erosion'):
        probe(m, r, mon)
    if tr.missing:
        mon.note('stage missing: %s' % tr.missing)


def probe(m, r, mon):
    """The same dune under surges that differ from transect to transect (as another model may provide them)"""
    import copy
    import aeolis.erosion
    f = getattr(aeolis.erosion, 'run_ph12', None)
    if f is None:
        mon.note('no dune erosion to call')
        return
    n = m.s['zb'].shape[0]
    for i in range(3):
        s = copy.deepcopy(m.s)
        for k, lo, hi in (('R', 0., 3.), ('eta', 0., 1.5), ('sigma_s', 0., .8)):
            s[k][:] = r.uniform(lo, hi, (n, 1))
        if r.rand() < .3:
            s['sigma_s'][r.randint(n)] = 0.
        b = trace.snap(s)
        t = r.uniform(0, m.p['tstop'])
        f(s, m.p, t)
        erosion(mon, b, trace.snap(s), m.p, t, 'surge %d' % i)
        mon.ev('imposed surges')


warmup = gen.warmup
