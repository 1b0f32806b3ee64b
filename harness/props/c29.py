"""The shipped set-ups."""
import glob
import os
import shutil

import numpy as np
from harness import gen, trace

ID = 'C29'
N_QUICK, N_THOROUGH = 66, 900
RULE = ('The set-ups shipped with the package (beach and foredune transects, barchan, parabolic dune, Carrara, grain size variations, '
        'sand engine), as they are and varied (start anywhere in the records, other wind, step, solver, scheme, bed roughness, '
        'combination of processes), run for some steps with monitors of mass, bounds and consistency on every state.')
ASSUMPTIONS = ['the wind record of the sand engine is not shipped: a generated one is used']
BIG = ('2D/Barchan_dune', '2D/Parabolic_dune', '2D/Carrara_Coast', 'sandengine_small_grids')


def examples():
    import aeolis
    root = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
    out = []
    for f in sorted(glob.glob(os.path.join(root, '**', '*.txt'), recursive=True)):
        with open(f, errors='ignore') as fp:
            t = fp.read()
        if 'xgrid_file' in t and 'wind_file' in t:
            out.append(os.path.relpath(f, root))
    return root, out


def case(rng, k):
    _, ex = examples()
    c = dict(example=ex[k % len(ex)] if ex else None, seed=rng.randrange(2 ** 31))
    big = any(b in (c['example'] or '') for b in BIG)
    c['steps'] = rng.randint(1, 2) if big else rng.randint(2, 10)
    c['late'] = round(rng.random(), 4)
    c['wind'] = gen.pick(rng, 1., 1., .7, 1.4, 2.)
    c['turn'] = gen.pick(rng, 0., 0., 25., -40., 180.)
    c['cfg'] = {}
    if k >= len(ex or [0]):
        if rng.random() < .3 and not big:
            c['cfg']['solver'] = gen.pick(rng, 'trunk', 'pieter', 'steadystate')
        if rng.random() < .3:
            c['cfg']['dt'] = gen.pick(rng, 60., 600., 1800.)
        for p in ('process_avalanche', 'process_mixtoplayer', 'process_vegetation', 'process_wet_bed_reset', 'process_moist', 'process_runup'):
            if rng.random() < .15 and not (big and p == 'process_avalanche'):
                c['cfg'][p] = rng.random() < .6
        if rng.random() < .2 and not big:
            c['cfg']['method_transport'] = gen.pick(rng, 'bagnold', 'dk', 'kawamura')
        if rng.random() < .2:
            c['cfg']['method_grainspeed'] = gen.pick(rng, 'windspeed', 'constant', 'duran')
    else:
        c.update(late=0., wind=1., turn=0.)
    return c


def run(c, mon):
    from aeolis.model import AeoLiS
    root, _ = examples()
    src = os.path.join(root, os.path.dirname(c['example']))
    shutil.copytree(src, 'run')
    os.chdir('run')
    name = os.path.basename(c['example'])
    r = np.random.RandomState(c['seed'])
    import aeolis.inout
    p = aeolis.inout.read_configfile(name)
    with open(name) as fp:
        lines = fp.read().split('\n')
    over = dict(c['cfg'])
    if p['method_moist_process'] is None:               # no moisture to be switched on
        over.pop('process_moist', None)
    if not p['process_threshold']:                      # grain speed not defined without threshold
        over.pop('method_grainspeed', None)
    if 'noflux' in (p['boundary_offshore'], p['boundary_onshore']):     # known to one solver only
        over.pop('solver', None)
    w = p['wind_file']
    if not isinstance(w, np.ndarray):
        t = np.arange(0, float(p['tstop']) + 1, 3600.)
        w = np.stack([t, r.uniform(3, 16, len(t)), r.uniform(200, 340, len(t))], axis=1)
    w = np.array(w, float)
    w[:, 1] *= c['wind']
    w[:, 2] = (w[:, 2] + c['turn']) % 360.
    np.savetxt('wind.vt', w)
    over['wind_file'] = 'wind.vt'
    dt = float(over.get('dt', p['dt']))
    if c['late']:
        over['tstart'] = float(round(c['late'] * (float(p['tstop']) - 12 * dt)))
        if over['tstart'] < 0:
            over['tstart'] = 0.
    keep = [l for l in lines if l.split('=')[0].strip() not in over]
    with open(name, 'w') as fp:
        fp.write('\n'.join(keep + ['%s = %s' % (k, gen.fmt(v)) for k, v in over.items()]) + '\n')
    m = AeoLiS(name)
    m.initialize()
    for k in ('process_vegetation',):
        if m.p[k] and m.p['veg_file'] is None:
            mon.note('no vegetation file')
    p, s = m.p, m.s
    z0 = s['zb'].copy()
    low = (s['zb'] - s['zne']).copy() if p['th_nelayer'] else None
    rho = p['rhog'] * (1. - p['porosity'])
    names = ('zb', 'mass', 'pickup', 'Ct')
    nf, nl = p['nfractions'], p['nlayers']
    with trace.Tracer({'bed': names, 'avalanche': ('zb',), 'mix': ('mass', 'Hsmix')}) as tr:
        for i in range(c['steps']):
            tag = '%s, step %d' % (c['example'], i)
            b = trace.snap(m.s, ('zb', 'mass', 'rhoveg', 'Ct', 'zb0'))
            t, n0 = m.t, m.c.get('matrixsolve', 0)
            m.update()
            s, p = m.s, m.p
            mon.ev('steps')
            mon.check(m.t > t, 'clock', lambda: '%s: time %r after %r' % (tag, m.t, t))
            for k in sorted(s):
                v = s[k]
                if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and k not in MAYBE:
                    inf = k in ('uth', 'uthf')
                    ok = not np.isnan(v).any() if inf else np.isfinite(v).all()
                    mon.check(ok, 'finite', lambda: '%s: %d values of %s are not finite' % (tag, int((~np.isfinite(v)).sum()), k))
            if m.c.get('matrixsolve', 0) - n0 >= p['max_iter']:
                mon.note('supply iteration not converged (announced by the model)')
                return
            Ct, mass, pk = s['Ct'], s['mass'], s['pickup']
            big = max(1., abs(mass).max())
            mon.check(Ct.min() >= 0, 'concentration', lambda: '%s: concentration %g' % (tag, Ct.min()))
            mon.check(mass.min() >= -1e-5 * big, 'bed-mass', lambda: '%s: mass %g' % (tag, mass.min()))
            mon.close(mass.sum(-1), b['mass'].sum(-1), 'layer-mass', rtol=1e-6, atol=1e-5 * big, msg='%s: mass of the layers' % tag)
            calm = not np.any(s['uw'])
            log = tr.take()
            ran = [e for e in log if e[0] == 'bed']
            for _, x, y, _ in ran:
                have = x['mass'][:, :, 0, :]
                mon.check((x['pickup'] <= have + 1e-5 * big).all(), 'supply', lambda: '%s: picks up %g more than the surface holds' % (tag, (x['pickup'] - have).max()))
                dz = -x['pickup'].sum(-1) / rho if p['process_bedupdate'] else 0.
                mon.close(y['zb'] - x['zb'], dz, 'bed-mass', rtol=1e-6, atol=1e-9, msg='%s: bed level change and exchanged mass' % tag)
                gone = x['mass'].sum(2) - x['pickup'] - y['mass'].sum(2)
                mon.close(gone.sum(-1), -x['pickup'].sum(-1), 'bottom', rtol=1e-6, atol=1e-5 * big, msg='%s: mass exchanged below the layers' % tag)
            for st, x, y, _ in log:
                if st == 'mix':
                    mon.close(y['mass'].sum(2), x['mass'].sum(2), 'mixing', rtol=1e-8, atol=1e-9 * big, msg='%s: mass of classes mixed' % tag)
                if st == 'avalanche' and y['zb'].shape[0] == 1:
                    v = abs(y['zb'] - x['zb'])
                    if not v[:, [0, 1, 2, -3, -2, -1]].any():
                        A = s['dsdn']
                        mon.check(abs(((y['zb'] - x['zb']) * A).sum()) <= 1e-6 * (v * A).sum() + 1e-9, 'avalanche', lambda: '%s: avalanches make %g m3' % (
                            tag, ((y['zb'] - x['zb']) * A).sum()))
            if not calm:
                us = np.hypot(s['ustars'], s['ustarn'])
                mon.close(us, s['ustar'], 'shear', rtol=1e-6, atol=1e-9, msg='%s: shear velocity and its components' % tag)
                mon.check(s['ustar'].min() >= 0, 'shear', lambda: '%s: shear velocity %g' % (tag, s['ustar'].min()))
                mon.check(s['uth'].min() > 0 or not p['process_threshold'], 'threshold', lambda: '%s: threshold %g' % (tag, s['uth'].min()))
                if p['process_threshold'] and p['threshold_file'] is None:
                    rest = .8 if p['method_transport'].lower() == 'dk' else 1.       # impact threshold
                    still = s['ustar'][:, :, None] < rest * s['uth'] * (1 - 1e-9)
                    still &= s['ustar'][:, :, None] < rest * s['uthf'] * (1 - 1e-9)
                    mon.check(not s['Cu'][still].any(), 'saturation', lambda: '%s: %d cells below threshold are not at rest' % (tag, int((s['Cu'][still] != 0).sum())))
                    mon.check(s['Cu'].min() >= 0, 'saturation', lambda: '%s: saturated concentration %g' % (tag, s['Cu'].min()))
                wsum = s['w'].sum(-1)
                mon.check((s['w'] >= -1e-9).all() and wsum.max() <= 1 + 1e-6, 'weights', lambda: '%s: weights sum up to %g' % (tag, wsum.max()))
            if p['process_tide'] or p['process_wave']:
                mon.check((s['Hs'] >= 0).all() and (s['Hs'] <= p['gamma'] * np.maximum(s['zs'].max() - b['zb'].min(), 0.) + 1e-9).all() if p['process_wave'] else True,
                          'waves', lambda: '%s: wave height %g' % (tag, s['Hs'].max()))
                if p['process_runup'] and p['process_tide']:
                    mon.check((s['TWL'] >= s['SWL'] - 1e-9).all() or p['runup_mask'] is not None, 'levels', lambda: '%s: total water level below still water level' % tag)
            if p['process_moist']:
                mon.check(s['moist'].min() >= -1e-9 and s['moist'].max() <= max(p['porosity'], p['satd_moist'], p['satw_moist']) + 1e-9, 'moisture', lambda: (
                    '%s: moisture %g to %g' % (tag, s['moist'].min(), s['moist'].max())))
            if p['process_groundwater']:
                mon.check((s['gw'] <= np.maximum(s['zb'], s['DSWL']) + 1e-6 + abs(s['zb'] - b['zb']).max()).all(), 'groundwater', lambda: '%s: water table above the bed' % tag)
            if p['process_vegetation']:
                mon.check(s['rhoveg'].min() >= 0 and s['rhoveg'].max() <= 1 and s['hveg'].min() >= 0 and s['hveg'].max() <= p['hveg_max'] + 1e-9, 'vegetation', lambda: (
                    '%s: cover %g to %g, height %g to %g' % (tag, s['rhoveg'].min(), s['rhoveg'].max(), s['hveg'].min(), s['hveg'].max())))
            if low is not None and not p['process_avalanche'] and not p['process_wet_bed_reset']:
                gap = s['zb'] - s['zne']
                mon.check((gap >= np.minimum(low, b['zb'] - s['zne']) - p['layer_thickness'] - 1e-9).all() or not p['process_bedupdate'], 'floor', lambda: (
                    '%s: bed %g below the floor' % (tag, -gap.min())))
            mon.check(np.array_equal(s['zb0'], b['zb0']), 'initial-bed', lambda: '%s: initial bed changed' % tag)
            mon.sig(c['example'], p['solver'], 'calm' if calm else 'wind', 'late' if c['late'] else '', *sorted(c['cfg']))
            mon.ev('cells', s['zb'].size)
            mon.ev('moving', int((Ct.sum(-1) > 0).sum()))


MAYBE = {'zne', 'Rti', 'w_h', 'd_h', 'w_hdelta', 'd_hdelta', 'h_delta', 'scan_w_moist', 'scan_d_moist'}
warmup = gen.warmup
