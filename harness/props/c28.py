"""Moisture and salt content of the bed surface."""
import numpy as np
from harness import gen, trace
from harness.props.c12 import interp

ID = 'C28'
N_QUICK, N_THOROUGH = 130, 2600
RULE = ('Random beaches under tides, waves and run-up with either moisture method, random soil parameters, weather records '
        '(rain, drought, frost to heat), groundwater on and off, scanning curves on and off, salt, and moisture fields imposed '
        'by a coupled model; the water balance of the surface is recomputed in every step.')
ASSUMPTIONS = ['salt only together with the surface moisture method (it needs the weather record)', 'runs start at time zero']
NAMES = ('moist', 'gw_prev', 'moist_swr', 'salt', 'zb', 'TWL', 'gw', 'wetting', 'uw', 'w_h', 'd_h', 'h_delta', 'scan_w', 'scan_d', 'scan_w_moist', 'scan_d_moist')


def case(rng, k):
    c = gen.base_case(rng, profile=gen.pick(rng, 'beach', 'beach', 'dune', 'bumps'), nf=1, grain='1d')
    c['nx'] = rng.randint(8, 22)
    c['steps'] = rng.randint(3, 12)
    c['dt'] = gen.pick(rng, 30., 60., 600., 1800., 3600.)
    c['umax'] = round(rng.uniform(1, 16), 2)
    c['mode'] = ('infiltration', 'surf', 'surf', 'scan')[k % 4]
    cfg = dict(process_moist=True, process_tide=True, Tdry=round(gen.pick(rng, 600., 5400., 40000.) * rng.uniform(.5, 2), 1),
               porosity=round(rng.uniform(.3, .5), 3), eps=gen.pick(rng, .001, .01))
    c['series'] = {'tide': [round(rng.uniform(-.5, 1.), 2), round(rng.uniform(.1, 1.), 2), gen.pick(rng, .5, 1., 2., 4.)]}
    if rng.random() < .5:
        c['series']['wave'] = [round(rng.uniform(.2, 2.5), 2), round(rng.uniform(4, 12), 1)]
        cfg.update(process_wave=True, process_runup=True, beach_slope=round(rng.uniform(.02, .1), 3))
    if c['mode'] != 'infiltration':
        n = gen.pick(rng, 2, 4, 7)
        T = c['dt'] * c['steps'] * gen.pick(rng, .4, 1.5)
        c['meteo'] = [[round(T * i / (n - 1.), 2), round(rng.uniform(-5, 35), 2), round(rng.uniform(0, 30), 2),
                       round(gen.pick(rng, 0., rng.uniform(0, 8)), 3), round(rng.uniform(97, 104), 2), round(rng.uniform(20, 100), 1)] for i in range(n)]
        cfg['meteo_file'] = 'met.txt'
        cfg['method_moist_process'] = 'surf_moisture'
        res = round(rng.uniform(0., .05), 3)
        sat = round(rng.uniform(.3, .5), 3)
        n1, n2 = round(rng.uniform(1.5, 3.), 3), round(rng.uniform(2.5, 5.), 3)
        cfg.update(resw_moist=res, resd_moist=res, satw_moist=round(sat - gen.pick(rng, 0., .08), 3), satd_moist=sat,
                   nw_moist=n1, nd_moist=n2, mw_moist=round(1 - 1 / n1, 4), md_moist=round(1 - 1 / n2, 4),
                   alfaw_moist=-round(rng.uniform(.03, .09), 4), fc=round(rng.uniform(.05, .15), 3), thick_moist=gen.pick(rng, .002, .01))
        cfg['alfad_moist'] = round(cfg['alfaw_moist'] * rng.uniform(.3, .9), 4)
        if rng.random() < (.9 if c['mode'] == 'scan' else .6):
            if c['mode'] == 'scan':
                c['steps'] = rng.randint(8, 30)
            cfg.update(process_groundwater=True, in_gw=round(rng.uniform(-1, .5), 2), K_gw=.0001, Cl_gw=.01)
            c['dx'] = max(c['dx'], 2.)
            cfg['tfac_gw'] = int(np.ceil(c['dt'] * .0001 / .3 * 18. / c['dx'] ** 2 / .3)) + 1
        cfg['process_scanning'] = c['mode'] == 'scan'
        if rng.random() < .4:
            cfg.update(process_salt=True, Tsalt=round(gen.pick(rng, 3600., 86400.) * rng.uniform(.5, 2), 1))
    c['impose'] = rng.random() < .4
    c['cfg'] = cfg
    return c


def retention(h, r, s, a, n, m):
    return r + (s - r) / (1 + np.abs(a * h) ** n) ** m


def scanning(c, b, a, gwp, p, hw, hd, mon, tag):
    """Hysteresis of the soil water retention (Mualem, 1974): curve of every cell, point of reversal and moisture."""
    up, rising = a['gw'] > gwp, np.asarray(a['wetting'], bool)
    down = a['gw'] < gwp
    sw, sd = np.asarray(b['scan_w'], bool), np.asarray(b['scan_d'], bool)
    want = b['h_delta'].copy()
    # leaving a main curve
    main = (~sw & rising & down) | (~sd & ~rising & up)
    want[main] = np.maximum(0., a['zb'] - a['gw'])[main] * 100.
    # leaving a wetting scanning curve: the drying scanning curve passes through the point reached
    back = sw & rising & down
    with np.errstate(all='ignore'):
        t = np.minimum((b['scan_w_moist'] - b['w_h']) * (p['satd_moist'] - b['w_h']) / (b['d_h'] - b['w_h']) + b['w_h'], p['satw_moist'])
        h = (((p['satw_moist'] - p['resw_moist']) / np.maximum(t - p['resw_moist'], 1e-5)) ** (1 / p['mw_moist']) - 1.) ** (1 / p['nw_moist']) / abs(p['alfaw_moist'])
    sure = back & np.isfinite(h)
    want[sure] = h[sure]
    # leaving a drying scanning curve: the wetting scanning curve does (to 0.01 of moisture)
    forth = sd & ~rising & up
    sel = ~forth & (~back | sure)
    mon.close(a['h_delta'][sel], want[sel], 'reversal', rtol=1e-7, atol=1e-7, msg='suction at the reversal %s' % tag)

    def wetting(h, w_h):
        w, d = (retention(h, p['res%s_moist' % q], p['sat%s_moist' % q], p['alfa%s_moist' % q], p['n%s_moist' % q], p['m%s_moist' % q]) for q in 'wd')
        return w_h + (p['satw_moist'] - w_h) / np.maximum(p['satw_moist'] - w, 1e-4) * (d - w)
    if forth.any():
        g, w0, d0 = a['h_delta'][forth], b['w_h'][forth], b['scan_d_moist'][forth]
        mon.check((wetting(g, w0) - d0 <= .01 + 1e-7).all(), 'reversal', lambda: 'wetting scanning curve starts %g above the drying one it leaves %s' % (
            (wetting(g, w0) - d0).max(), tag))
        e = g > .0101
        mon.check((wetting(g - .01, w0) - d0 > .01 - 1e-7)[e].all(), 'reversal', lambda: 'suction at reversal %s is not the smallest possible one %s' % (g[e], tag))
    hdl = a['h_delta']
    wd, dd = (retention(hdl, p['res%s_moist' % q], p['sat%s_moist' % q], p['alfa%s_moist' % q], p['n%s_moist' % q], p['m%s_moist' % q]) for q in 'wd')
    cw = np.maximum(np.minimum(wetting(hdl, hw), hd), hw)
    cd = np.maximum(np.minimum(hw + (wd - hw) / np.maximum(p['satd_moist'] - hw, 1e-4) * (hd - hw), hd), hw)
    mon.close(a['scan_w_moist'], cw, 'scanning-curve', rtol=1e-9, atol=1e-12, msg='wetting scanning curve %s' % tag)
    mon.close(a['scan_d_moist'], cd, 'scanning-curve', rtol=1e-9, atol=1e-12, msg='drying scanning curve %s' % tag)
    wet = a['gw'] >= gwp
    on_w = wet & (~rising | sw)
    on_d = ~wet & (rising | sd)
    swr = np.where(on_w, cw, np.where(on_d, cd, np.where(wet, hw, hd)))
    mon.close(a['moist_swr'], swr, 'curve', rtol=1e-9, atol=1e-12, msg='capillary moisture of the curve to follow %s' % tag)
    slack = 1e-12
    mon.check(not (np.asarray(a['scan_w'], bool) & ~(on_w & (cw > hw - slack))).any() and not (on_w & (cw > hw + slack) & ~np.asarray(a['scan_w'], bool)).any(),
              'curve', 'cells on a wetting scanning curve %s' % tag)
    mon.check(not (np.asarray(a['scan_d'], bool) & ~(on_d & (cd < hd + slack))).any() and not (on_d & (cd < hd - slack) & ~np.asarray(a['scan_d'], bool)).any(),
              'curve', 'cells on a drying scanning curve %s' % tag)
    for k, v in (('main', main), ('back', back), ('forth', forth), ('on wetting scan', on_w & sw & rising), ('on drying scan', on_d & sd & ~rising)):
        if v.any():
            mon.ev('reversals: ' + k, int(v.sum()))


def run(c, mon):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    if c.get('meteo'):
        arr['met'] = np.array(c['meteo'])
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    p = m.p
    r = np.random.RandomState(c['seed'] + 2)
    surf = c['mode'] != 'infiltration'
    cap = p['satd_moist'] if surf else p['porosity']
    with trace.Tracer({'hydro': NAMES}) as tr:
        for i in range(c['steps']):
            if c['impose'] and r.rand() < .5:
                m.set_var('moist', r.uniform(0, cap, m.s['moist'].shape))
                if p['process_salt']:
                    m.set_var('salt', r.uniform(0, 1, m.s['salt'].shape))
            t0 = m.t
            m.update()
            hy = tr.take()
            if len(hy) != 1:
                mon.note('no hydro stage')
                return
            st, b, a, args = hy[0]
            dt = m.dt
            tag = 'step %d' % i
            mon.ev('moisture evaluations', a['moist'].size)
            mon.finite(a['moist'], 'finite', 'moisture %s' % tag)
            mon.check((a['moist'] >= 0).all() and (a['moist'] <= cap + 1e-12).all(), 'bounds', lambda: 'moisture %g..%g, saturation %g %s' % (
                a['moist'].min(), a['moist'].max(), cap, tag))
            depth = a['TWL'] - a['zb']
            if not surf:
                wet = depth > p['eps']
                want = np.where(wet, p['porosity'], np.minimum(p['porosity'], np.maximum(0., b['moist'] * .5 ** (dt / p['Tdry']))))
                mon.close(a['moist'], want, 'drying', rtol=1e-9, atol=1e-12, msg='moisture by flooding and drying %s' % tag)
                mon.sig('infiltration', 'wet%d' % wet.any(), 'dry%d' % (~wet).any(), 'was-wet' if (b['moist'][~wet] > .01).any() else '', 'runup' if p['process_runup'] else '')
                continue
            wet = depth > 0
            T, Q, rain, P, U = [interp(c['meteo'], t0, k) for k in range(1, 6)]
            if p['process_groundwater']:
                met = m.s['meteo']      # the record is evaluated at the last groundwater sub-step
                n = max(1, int(p['tfac_gw']))
                ts = t0 + dt / n * (n - 1)
                T, Q, rain, P, U = [interp(c['meteo'], ts, k) for k in range(1, 6)]
            met = m.s['meteo']
            for nm, v in zip(('T', 'Q', 'RH', 'P', 'U'), (T, Q, rain, P, U)):
                mon.close(met[nm], v, 'weather', rtol=1e-9, atol=1e-9, msg='%s at %s' % (nm, tag))
            es = .6108 * np.exp(17.27 * T / (T + 237.3))
            slope = 4098. * es / (T + 237.3) ** 2
            g = p['cpair'] * P / (.622 * 2.26)
            u2 = .174 / np.log10(p['z'] / 2.) * a['uw']
            evo = (slope * Q + 6.43 * g * es * (1 - U / 100.) * (1 + .86 * u2)) / (2.26 * (slope + g)) / 86400e3
            pcp = rain / 3600e3
            w = b['moist'] + np.minimum(0., (b['moist'] - p['fc']) * (.5 ** (dt / p['Tdry']) - 1.))
            w = w + (pcp - evo) * dt / p['thick_moist']
            w = np.minimum(np.maximum(w, p['resw_moist']), p['satd_moist'])
            w[wet] = p['satd_moist']
            h = np.maximum(0., a['zb'] - a['gw']) * 100.
            hw = retention(h, p['resw_moist'], p['satw_moist'], p['alfaw_moist'], p['nw_moist'], p['mw_moist'])
            hd = retention(h, p['resd_moist'], p['satd_moist'], p['alfad_moist'], p['nd_moist'], p['md_moist'])
            if c['mode'] == 'surf':
                swr = np.where(np.asarray(a['wetting'], bool), hw, hd)
                mon.close(a['moist_swr'], swr, 'retention', rtol=1e-9, atol=1e-12, msg='capillary moisture %s' % tag)
            else:
                swr = a['moist_swr']
                lo, hi = np.minimum(hw, hd), np.maximum(hw, hd)
                mon.check((swr >= lo - 1e-9).all() and (swr <= hi + 1e-9).all(), 'scanning-between', lambda: 'capillary moisture leaves the range of the main curves by %g %s' % (
                    max((lo - swr).max(), (swr - hi).max()), tag))
                if not p['process_groundwater']:
                    gwp = a['gw_prev']
                else:
                    gwp = b['gw'] if i else np.zeros(a['gw'].shape) + p['in_gw']
                if i:
                    scanning(c, b, a, gwp, p, hw, hd, mon, tag)
                else:
                    mon.close(swr, hw, 'curve', rtol=1e-9, atol=1e-12, msg='initial capillary moisture %s' % tag)
                mon.check(not (np.asarray(a['scan_w'], bool) & np.asarray(a['scan_d'], bool)).any(), 'one-curve', 'wetting and drying scanning curve at once %s' % tag)
            want = np.minimum(np.maximum(w, swr), p['satd_moist'])
            mon.close(a['moist'], want, 'water-balance', rtol=1e-9, atol=1e-12, msg='surface moisture %s' % tag)
            if p['process_salt']:
                s0 = b['salt'].copy()
                s1 = np.where(wet, 1., s0[:, :, 0] * .5 ** (dt / p['Tsalt']))
                s1 = np.minimum(1., s1 + pcp * dt / p['layer_thickness'])
                mon.close(a['salt'][:, :, 0], s1, 'salt', rtol=1e-9, atol=1e-12, msg='salt %s' % tag)
                mon.close(a['salt'][:, :, 1:], s0[:, :, 1:], 'salt-deep', rtol=0, atol=0, msg='salt below the surface layer %s' % tag)
            else:
                mon.close(a['salt'], b['salt'], 'salt', rtol=0, atol=0, msg='salt without salt process %s' % tag)
            mon.sig(c['mode'], 'wet%d' % wet.any(), 'rain' if pcp > 0 else '', 'dew' if (evo < 0).any() else '', 'gw' if p['process_groundwater'] else '',
                    'capillary' if (swr > w)[~wet].any() else '', 'salt' if p['process_salt'] else '')


warmup = gen.warmup
