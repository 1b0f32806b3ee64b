"""Symmetries of the whole model."""
import copy
import logging
import os

import numpy as np
from harness import gen, trace

ID = 'C24'
N_QUICK, N_THOROUGH = 140, 2800
RULE = ('Random models of all processes run next to a twin that describes the same beach in another way: a transect as a uniform coast, '
        'rows shifted along a circular coast, mirrored along the coast, everything raised by a constant, all records and the clock '
        'shifted in time, a grain class split in two equal ones, classes listed in another order; all variables compared after '
        'every step.')
ASSUMPTIONS = ['circular lateral boundaries, no wind shear over topography and no avalanching where the coast is shifted along itself',
               'no random draws']
MODES = ('transect', 'roll', 'transect', 'mirror', 'datum', 'time', 'split', 'permute')


def case(rng, k):
    mode = MODES[k % len(MODES)]
    dims = {'transect': '1d', 'roll': '2d', 'mirror': '2d'}.get(mode, 'any')
    c = gen.base_case(rng, dims)
    c['mode'] = mode
    c['nx'] = min(c['nx'], 18)
    if c['ny']:
        c['ny'] = rng.randint(3, 6)
    c['dt'] = gen.pick(rng, 1., 60., 300.)
    c['steps'] = rng.randint(2, 7)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'calm', 'const')
    c['umax'] = round(rng.uniform(8, 25), 2)
    cfg = dict(solver=gen.pick(rng, 'trunk', 'trunk', 'trunk', 'steadystate', 'pieter'), scheme='euler_backward', accfac=gen.pick(rng, 1., 1., 4.))
    if rng.random() < .15 and mode != 'transect':  # sub-steps of the explicit scheme depend on the cell sizes alongshore
        cfg.update(scheme=gen.pick(rng, 'euler_forward', 'crank_nicolson'), solver='trunk')
        c['dt'] = gen.pick(rng, .2, 1.)
    if rng.random() < .2:
        cfg['max_bedlevel_change'] = 1e-3
    s = {}
    if rng.random() < .65 or mode == 'datum':
        s.update(tide=[round(rng.uniform(-.3, 1.), 2), gen.pick(rng, .3, 1.), 3.], wave=[1., 6.])
        for p in ('process_tide', 'process_wave', 'process_runup', 'process_moist', 'process_mixtoplayer', 'process_wet_bed_reset'):
            cfg[p] = rng.random() < .65
        cfg['Tbedreset'] = 5000.
        if cfg['process_moist']:
            cfg['th_moisture'] = rng.random() < .8
            if rng.random() < .5 and mode != 'datum':  # the two terms of the Boussinesq equation are discretised differently
                s['meteo'] = 1
                cfg['method_moist_process'] = 'surf_moisture'
                cfg['process_groundwater'] = rng.random() < .6
                cfg['dt_gw'] = c['dt'] / 2.
                if rng.random() < .4:
                    cfg['process_salt'] = cfg['th_salt'] = True
    if rng.random() < .35:
        s['veg'] = .8
        cfg.update(V_ver=5., germinate=0., lateral=0., vegshear_type='raupach')
        if mode == 'roll':
            cfg['veg_sigma'] = 0.
    if rng.random() < (.25 if mode != 'datum' else .5):
        s['ne'] = gen.pick(rng, .02, .02, .06)
    if mode in ('datum', 'time', 'split', 'permute'):
        cfg['process_avalanche'] = rng.random() < .35
    if mode in ('datum', 'time', 'split', 'permute') and not c['ny'] and rng.random() < .4:
        cfg['process_shear'] = True
    if mode == 'time' and rng.random() < .4:
        s['fence'] = 1.
    if mode in ('roll', 'mirror', 'datum', 'time') and rng.random() < .4:
        for m in ('tide', 'wave', 'runup', 'threshold'):
            if (m, mode) == ('tide', 'datum'):
                continue  # multiplies the water level
            if rng.random() < .4:
                s[m + '_mask'] = [.5, .1] if m != 'threshold' else [1.5, .05]
    if mode == 'datum':
        cfg['process_tide'] = True  # without a tide the sea stays at zero
    if mode == 'time' and c['wind'] == 'calm':
        c['wind'] = 'gust'  # a shifted clock may miss the very moment of no wind
    if mode == 'time' and cfg['solver'] == 'pieter':
        cfg['solver'] = 'steadystate'  # pieter's first step from t = 0 just sets up the weights
    if mode == 'split':
        c['nf'] = gen.pick(rng, 1, 1, 2)
        c['grain'] = '1d'
    if mode == 'permute':
        c['nf'] = gen.pick(rng, 2, 3, 4)
        c['grain'] = gen.pick(rng, '1d', '2d', 'bedcomp')
    if mode == 'transect' and c['grain'] == 'bedcomp' and rng.random() < .5:
        c['grain'] = '1d'
    c['rows'] = rng.randint(2, 5)
    c['shift'] = rng.randint(1, 5)
    c['raise'] = gen.pick(rng, 10., -3., .5, 20., 1000., -3000.)
    c['later'] = gen.pick(rng, 1000., 86400., 17.)
    c['part'] = round(rng.uniform(.1, .9), 3)
    c['series'], c['cfg'] = s, cfg
    return c


def twin(c, cfg, arr, r):
    """-> description of the twin, and what turns its states into those of the original."""
    cfg, arr = copy.deepcopy(cfg), copy.deepcopy(arr)
    mode = c['mode']
    fields = [k for k in arr if k in ('bed', 'ne', 'veg', 'fence', 'bedcomp') or k.endswith('_mask')]
    ident = lambda k, v: v
    if mode == 'transect':
        n = c['rows']
        cfg['ny'] = n
        for k in fields:
            arr[k] = np.repeat(np.asarray(arr[k]).reshape(1, -1), n + 1, axis=0)
        X, Y = np.meshgrid(np.ravel(arr['x']), np.arange(n + 1) * c['dy'])
        arr['x'], arr['y'] = X, Y
        cfg['ygrid_file'] = 'y.txt'
        return cfg, arr, 'rows'
    if mode == 'roll':
        for k in fields:
            arr[k] = np.roll(arr[k], c['shift'], axis=0)
        return cfg, arr, lambda k, v: np.roll(v, -c['shift'], axis=0)
    if mode == 'mirror':
        for k in fields:
            arr[k] = arr[k][::-1]
        arr['wind'][:, 2] = 540. - arr['wind'][:, 2]
        odd = ('uwn', 'taun', 'taun0', 'ustarn', 'ustarn0', 'un', 'qn', 'taun_u')
        return cfg, arr, lambda k, v: (-1. if k in odd else 1.) * np.asarray(v[::-1], float)
    if mode == 'datum':
        a = c['raise']
        arr['bed'] = arr['bed'] + a
        if 'ne' in arr:
            arr['ne'] = arr['ne'] + a
        if 'tide' in arr:
            arr['tide'][:, 1] += a
        for k, d in (('veg_min_elevation', -10.), ('in_gw', 0.), ('GW_stat', 1.)):
            cfg[k] = cfg.get(k, d) + a

        levels = ('zb', 'zb0', 'zs', 'SWL', 'TWL', 'DSWL', 'zne', 'gw', 'gw_prev', 'zsep', 'fence_top', 'fence_base')
        return cfg, arr, lambda k, v: v - a if k in levels else v
    if mode == 'time':
        a = c['later']
        for k in ('wind', 'tide', 'wave', 'meteo'):
            if k in arr:
                arr[k][:, 0] += a
        cfg['tstart'] = cfg.get('tstart', 0.) + a
        cfg['tstop'] = cfg['tstop'] + a
        return cfg, arr, ident
    gs = np.atleast_1d(cfg['grain_size'])
    nf = len(gs)
    if mode == 'split':
        j = c['seed'] % nf
        gd = np.atleast_1d(cfg['grain_dist']).astype(float)
        cfg['grain_size'] = np.insert(gs, j, gs[j]).tolist()
        g = np.insert(gd, j, gd[j] * c['part'])
        g[j + 1] = gd[j] * (1 - c['part'])
        cfg['grain_dist'] = g.tolist()
        return cfg, arr, ('split', j)
    o = r.permutation(nf)
    cfg['grain_size'] = gs[o].tolist()
    if c['grain'] == 'bedcomp':
        b = arr['bedcomp'].reshape((c['ny'] + 1, c['nx'] + 1, c['nl'], nf))
        arr['bedcomp'] = b[..., o].reshape(arr['bedcomp'].shape)
    if 'gd' in arr:
        arr['gd'] = arr['gd'][:, o]
    else:
        cfg['grain_dist'] = np.atleast_1d(cfg['grain_dist'])[o].tolist()
    inv = np.argsort(o)
    return cfg, arr, ('permute', inv)


SKIP = {'x', 'y', 'dn', 'dsdn', 'dsdni', 'alfa', 'theta', 'q', 'gradh', 'udir', 'ustars0', 'ustarn0'}
SHARED = {'Ct', 'pickup', 'mass', 'w', 'w_air', 'w_bed', 'w_init', 'qs', 'qn'}  # divided over the halves of a class


class Warned(logging.Filter):
    """Swallows the messages of the model and remembers whether it had to repair a solution."""
    seen = False

    def filter(self, record):
        self.seen = self.seen or record.levelno >= logging.WARNING
        return False


def run(c, mon):
    warned, log, off = Warned(), logging.getLogger('aeolis.model'), logging.root.manager.disable
    log.addFilter(warned)
    logging.disable(logging.NOTSET)
    try:
        run_twins(c, mon, warned)
    finally:
        logging.disable(off)
        log.removeFilter(warned)


def run_twins(c, mon, warned):
    from aeolis.model import AeoLiS
    if c['mode'] == 'datum':
        c['cfg'].update(veg_min_elevation=-10., in_gw=0., GW_stat=1.)
    cfg, arr = gen.build(c)
    if c['nf'] == 1 and c['mode'] == 'split':
        cfg['grain_dist'] = [1.]
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    cfg2, arr2, how = twin(c, cfg, arr, r)
    ms = []
    for d, f, a in (('a', cfg, arr), ('b', cfg2, arr2)):
        os.makedirs(d)
        os.chdir(d)
        gen.write_arrays(a, f)
        gen.write_config(f)
        m = AeoLiS('aeolis.txt')
        m.initialize()
        ms.append(m)
        os.chdir('..')
    a, b = ms
    for i in range(c['steps'] + 1):
        tag = '%s, step %d' % (c['mode'], i)
        dtb = b.t - (c['later'] if c['mode'] == 'time' else 0.)
        if not mon.check(abs(dtb - a.t) <= 1e-6 * max(1., b.t), 'time', lambda: '%s: time %r and %r' % (tag, a.t, dtb)):
            return
        if not compare(c, mon, a, b, how, tag):
            return
        if i == c['steps']:
            break
        a.update()
        b.update()
        mon.ev('steps', 2)
        if c['mode'] == 'split' and warned.seen:
            mon.ev('repaired')  # negative concentrations are cut off per class
            break
        if c['mode'] in ('split', 'permute') and max(abs(m.s['w'] - m.s['w_init']).max() for m in ms) > 1e-9:
            mon.ev('supply-limited')  # weights freed by exhausted classes go to the classes listed after them
            break
    on = sorted(k[8:] for k in cfg if k.startswith('process_') and cfg[k] is True)
    mon.sig(c['mode'], cfg['solver'], '2d' if c['ny'] else '1d', c['nf'], *(on + sorted(c['series'])))


def compare(c, mon, a, b, how, tag):
    bad = []
    dims = a.dimensions()
    skip = SKIP | ({'drhoveg'} if c['mode'] == 'roll' else set())  # counts vegetated neighbours, not across borders
    for k in sorted(a.s):
        v, w = a.s[k], b.s.get(k)
        if k in skip or not isinstance(v, np.ndarray) or v.dtype.kind not in 'fib' or not isinstance(w, np.ndarray):
            continue
        classes = 'nfractions' in dims[k] if k in dims else v.ndim >= 3 and v.shape[-1] == c['nf']
        if c['mode'] == 'permute':
            w = w[..., how[1]] if classes else w
        elif c['mode'] == 'split':
            if classes:
                x = np.delete(w, how[1], axis=-1)
                if k in SHARED:
                    x[..., how[1]] += w[..., how[1]]
                w = x
        elif how != 'rows':
            if c['mode'] == 'datum' and not v.any() and not w.any():
                continue  # belongs to a process that is off
            w = how(k, w)
            if a.t == a.p['tstart'] and k in LEVELS:
                continue  # not determined before the first step
        pairs = [(v[0], w[n]) for n in range(w.shape[0])] if how == 'rows' else [(v, w)]
        for x, y in pairs:
            if x.shape != y.shape:
                bad.append((k, 'shape'))
                break
            x, y = np.asarray(x, float), np.asarray(y, float)
            fin = np.isfinite(x) & np.isfinite(y)
            scale = max(1e-12, abs(x[fin]).max(initial=0.))
            with np.errstate(all='ignore'):
                d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0., abs(x - y))
            if c['mode'] == 'datum':
                scale = max(scale, min(abs(c['raise']), 20.))
            # change of the bed level: rounding of the level itself, per year
            level = abs(c['raise']) * 2e-15 * 3.2e7 / max(a.dt, 1e-9) if c['mode'] == 'datum' and k in ('dzbveg', 'dzbyear', 'dhveg', 'drhoveg') else 0.
            if not (d <= level + (1e-7 if c['mode'] not in ('permute', 'split') else 1e-5) * scale + TOL.get(k, 1e-11)).all():
                bad.append((k, float(np.nanmax(d)) if np.isfinite(d).any() else 'nan', float(scale)))
                break
            mon.worst('diff:' + c['mode'], d.max(initial=0.) / scale)
        mon.ev('eval:fields')
    return mon.check(not bad, c['mode'], lambda: '%s: the twin differs in %s' % (tag, bad[:8]))


LEVELS = {'SWL', 'TWL', 'DSWL', 'gw', 'gw_prev', 'zsep', 'fence_top', 'fence_base', 'zs'}
TOL = dict.fromkeys(('dzbveg', 'dzbyear', 'dzbavg', 'dhveg'), 5e-4)  # round-off of levels, per year
warmup = gen.warmup
