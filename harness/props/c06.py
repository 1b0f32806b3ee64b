"""Threshold of motion."""
import numpy as np
from harness import gen, trace

ID = 'C06'
N_QUICK, N_THOROUGH = 180, 3600
RULE = ('Random models over all threshold-controlling processes (grain size, ten moisture formulations, flooding by the '
        'tide, salt, sheltering, user mask, non-erodible floor, prescribed threshold map) with moisture and salt fields '
        'imposed through the coupling interface; the threshold each step is recomputed from the state seen by the model.')
ASSUMPTIONS = []

MOIST = ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish',
         'cornelis', 'dong_2007')
RAISING = ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish')


def case(rng, k):
    c = gen.base_case(rng, wind='const', grain=gen.pick(rng, '1d', '1d', 'bedcomp'))
    c['steps'] = rng.randint(2, 4)
    c['umax'] = round(rng.uniform(3, 20), 2)
    c['dt'] = 10.
    cfg = {}
    ser = {}
    mode = k % 6
    if mode in (0, 1, 2):
        cfg['th_moisture'] = True
        cfg['method_moist_threshold'] = MOIST[(k // 6 * 3 + mode) % len(MOIST)]
        if cfg['method_moist_threshold'] in ('dong_2002', 'gregory_darwish', 'cornelis', 'dong_2007'):
            c['grain'] = '1d'
    elif mode == 3:
        ser['tide'] = [round(rng.uniform(-.5, 2.), 2), round(rng.uniform(0, 1.5), 2), 2]
        cfg['process_tide'] = True
    elif mode == 4:
        cfg['th_salt'] = True
    else:
        c['threshold_map'] = c['ny'] > 0 and rng.random() < .5
        if rng.random() < .3:
            cfg['process_threshold'] = False
    if rng.random() < .25:
        ser['ne'] = gen.pick(rng, .0, .01, .03, .5)
    if rng.random() < .25:
        ser['threshold_mask'] = [round(rng.uniform(.5, 2), 2), round(rng.uniform(0, .3), 2)]
    if rng.random() < .2:
        cfg['th_sheltering'] = True
        if rng.random() < .7:
            cfg['m'] = round(rng.uniform(.2, .8), 2)
    for nm, lo, hi in (('Aa', .08, .12), ('w1_5', .01, .04), ('rhoa', 1.1, 1.3), ('resw_moist', .005, .03), ('csalt', .01, .05), ('porosity', .3, .5),
                       ('rhog', 2000., 3000.), ('rhow', 990., 1040.), ('g', 9.7, 9.9)):
        if rng.random() < .2:
            cfg[nm] = round(rng.uniform(lo, hi), 4)
    c['series'] = ser
    c['cfg'] = cfg
    return c


def moist_ref(p, uth, mg, meth, s):
    d = np.sum(np.asarray(p['grain_size']) * np.asarray(p['grain_dist'])) if np.ndim(p['grain_dist']) == 1 else None
    ix = mg > p['resw_moist'] * p['rhow'] / (p['rhog'] * (1. - p['porosity'])) + 0.005
    W = p['w1_5']
    g = p['g']
    with np.errstate(all='ignore'):
        if meth == 'belly_johnson':
            v = uth * np.maximum(1., 1.8 + .6 * np.log10(np.where(ix, mg, 1.) * 100.))
        elif meth == 'hotta':
            v = uth + 7.5 * mg
        elif meth == 'chepil':
            v = np.sqrt(uth ** 2 + .6 * mg ** 2 / (p['rhoa'] * W ** 2))
        elif meth == 'saleh_fryear':
            v = .305 + .022 * mg / W + .506 * (mg / W) ** 2
        elif meth == 'saleh_fryear_mod':
            v = uth + .022 * mg / W + .506 * (mg / W) ** 2
        elif meth == 'shao':
            v = uth * np.exp(22.7 * mg)
        elif meth == 'dong_2002':
            mm = d * 1000
            K = 2.51 if mm < .135 else 2.05 if mm < .15 else 2.75 if mm < .2 else 1.59 if mm < .25 else 1.87 if mm < .4 else 2.15
            v = uth * np.sqrt(1 + K * 100 * mg)
        elif meth == 'gregory_darwish':
            v = uth * np.sqrt(1 + mg + 6 / np.pi * 6.12e-5 / (p['rhog'] * g * d ** 2)
                              + 738.8 / (p['rhow'] * g * d) * np.exp(-.1 * mg / W) * np.maximum(mg - .5 * W, 0))
        elif meth == 'cornelis':
            v = np.sqrt(.013 * (1 + mg + 1.7e-4 / ((p['rhog'] - p['rhoa']) * g * d ** 2)
                                * (1 + 3e14 * .075 ** 2 * d / (10 ** 9 * np.exp(-6.5 * mg / W)))
                                * (p['rhog'] - p['rhoa']) / p['rhoa'] * g * d))
        else:
            v = .16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * g * d) * (1 + 478.2 * mg ** 1.52)
    r = np.where(ix, v, uth)
    return np.where(mg > .064, np.inf, r), ix


def run(c, mon):
    r = np.random.RandomState(c['seed'] + 5)
    if c.get('threshold_map'):
        c = dict(c, cfg=dict(c['cfg'], threshold_file='thr.txt'))
        thr = r.uniform(.1, .8, (c['ny'] + 1, c['nx'] + 1)).round(6)
        np.savetxt('thr.txt', thr, fmt='%.8f')
    m = gen.make_model(c)
    p = m.p
    nf = p['nfractions']
    shp = m.s['zb'].shape
    names = ('uth', 'uthf', 'uth0', 'moist', 'salt', 'zb', 'zs', 'ustar', 'mass', 'zne')
    mask = np.asarray(m.s['threshold_mask']) + np.zeros(shp)
    ne = p['ne_file'] if p['th_nelayer'] else None
    with trace.Tracer({'threshold': names}) as tr:
        for i in range(c['steps']):
            if p['th_moisture']:
                v = r.uniform(0, r.choice([.03, .1, .4]), shp)
                v[r.rand(*shp) < .2] = 0.
                m.set_var('moist', v)
            if p['th_salt']:
                m.set_var('salt', r.uniform(0, 1, m.s['salt'].shape))
            m.update()
            mon.ev('steps')
            log = tr.take()
            tag = 'step %d' % i
            if log:
                b, a = log[-1][1], log[-1][2]
            else:
                b = a = trace.snap(m.s, names)
            uth = a['uth']
            if c.get('threshold_map'):
                ref = thr[:, :, None] + np.zeros(nf)
                raised = False
            elif not p['process_threshold']:
                ref = np.zeros(uth.shape)
                raised = False
            else:
                ref = p['Aa'] * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * np.asarray(p['grain_size'])) + np.zeros(uth.shape)
                mon.close(a['uth0'], ref, 'grain-size', rtol=1e-9, msg='threshold by grain size %s' % tag)
                dry = ref.copy()
                wet = np.zeros(uth.shape, bool)
                meth = ''
                if p['th_moisture']:
                    meth = p['method_moist_threshold']
                    mg = b['moist'] * p['rhow'] / (p['rhog'] * (1. - p['porosity']))
                    ref, wet = moist_ref(p, ref, mg[:, :, None] + np.zeros(nf), meth, b)
                elif p['process_tide']:
                    fl = b['zb'] - b['zs'] < -p['eps']
                    ref = np.where(fl[:, :, None], np.inf, ref)
                    wet = fl
                if p['th_salt']:
                    ref = ref * 1.03 * np.exp(102.7 * p['csalt'] * (1. - b['salt'][:, :, :1]))
                raised = not p['th_moisture'] or meth in RAISING
                if p['th_sheltering']:
                    top = b['mass'][:, :, 0, :]
                    sh = (top * (b['ustar'][:, :, None] <= ref)).sum(-1) / top.sum(-1)
                    ref = ref * np.sqrt((1 - p['m'] * sh) * (1 + p['m'] * p['beta'] / p['sigma'] * sh))[:, :, None]
                if raised and not p['th_sheltering'] and (mask == 1).all():
                    mon.check((uth >= dry * (1 - 1e-12)).all(), 'only-raised', lambda: 'threshold %r below that of dry sand %r %s' % (
                        uth.min(), dry.min(), tag))
                ref = ref * np.real(mask)[:, :, None] + np.imag(mask)[:, :, None]
            exposed = np.zeros(shp, bool)
            if ne is not None:
                exposed = b['zb'] <= ne + .01
                edge = np.abs(b['zb'] - ne - .01) < 1e-9
                ref = np.where(exposed[:, :, None], np.inf, ref)
                ref = np.where(edge[:, :, None], uth, ref)
                mon.check(np.isinf(uth[exposed & ~edge]).all() and np.isinf(a['uthf'][exposed & ~edge]).all(), 'non-erodible',
                          'exposed non-erodible layer with a finite threshold %s' % tag)
                mon.check((m.get_var('pickup')[exposed & ~edge] <= 1e-6).all(), 'non-erodible',
                          lambda: 'sediment taken from the non-erodible layer: %r %s' % (m.get_var('pickup')[exposed].max(), tag))
            mon.close(uth, ref, 'threshold', rtol=1e-8, msg='threshold %s' % tag)
            mon.close(a['uthf'], ref, 'fluid-threshold', rtol=1e-8, msg='fluid threshold %s' % tag)
            closed = np.isinf(ref)
            if closed.any():
                mon.check((m.get_var('Cu')[closed] == 0).all(), 'closed', 'saturation where the bed is closed %s' % tag)
            mon.ev('cells_closed', closed.sum())
            mon.ev('cells_open', (~closed).sum())
            mon.sig(p['method_moist_threshold'] if p['th_moisture'] else 'tide' if p['process_tide'] else 'salt' if p['th_salt'] else
                    'map' if c.get('threshold_map') else 'dry' if p['process_threshold'] else 'off',
                    'closed' if closed.any() else '', 'open' if (~closed).any() else '', 'ne' if exposed.any() else '',
                    'shelter' if p['th_sheltering'] else '', 'mask' if not (mask == 1).all() else '', 'nf%d' % nf)


warmup = gen.warmup
