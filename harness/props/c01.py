"""Bed level change follows the exchanged mass."""
import numpy as np
from harness import gen, trace

ID = 'C01'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random complete model set-ups (1-D/2-D, grain classes, layers, wind series, schemes, solvers) stepped through '
        'the public interface, plus hostile exchange fields (erosion/deposition from far below to many times the mass of '
        'a bed layer) forced on the bed update of an initialised model; the case index alternates the two.')
ASSUMPTIONS = ['numpy/scipy arithmetic', 'bed updating enabled unless the case disables it']


def gen_forced(rng):
    c = gen.base_case(rng, nf=gen.pick(rng, 1, 2, 3, 4), steps=1)
    c['kind'] = 'forced'
    c['rounds'] = rng.randint(2, 5)
    c['mags'] = [round(rng.uniform(-5, 2.2), 3) for _ in range(c['rounds'])]
    c['cfg'] = dict(process_bedupdate=rng.random() < .9)
    if rng.random() < .3:
        c['cfg']['porosity'] = round(rng.uniform(.25, .55), 3)
    if rng.random() < .3:
        c['series'] = {'ne': gen.pick(rng, .001, .02)}
    return c


def case(rng, k):
    if k % 3 == 2:
        return gen_forced(rng)
    c = gen.base_case(rng)
    c['kind'] = 'model'
    cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson'))
    if cfg['scheme'] != 'euler_forward':
        cfg['solver'] = gen.pick(rng, 'trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter')
    else:
        cfg['CFL'] = 1.
    if rng.random() < .25:
        cfg['porosity'] = round(rng.uniform(.25, .55), 3)
        cfg['rhog'] = round(rng.uniform(2000., 3000.), 1)
    if rng.random() < .3:
        cfg['accfac'] = gen.pick(rng, 2., 10., 50.)
    if rng.random() < .15:
        cfg['process_bedupdate'] = False
    if rng.random() < .3:
        cfg['avg_time'] = gen.pick(rng, 600., 3600., 86400.)
    if rng.random() < .3:
        # everything that moves the bed besides the exchange with the air, seen through the stage monitors
        cfg['process_avalanche'] = c['ny'] > 0 and rng.random() < .5
    if rng.random() < .3:
        c['series'] = dict(tide=[round(rng.uniform(-1, 1.), 2), round(rng.uniform(0, 1.5), 2), 2])
        cfg['process_tide'] = True
        cfg['process_wet_bed_reset'] = rng.random() < .5
    if rng.random() < .2:
        c['series'] = dict(c.get('series', {}), ne=gen.pick(rng, .001, .01, .1))
    c['cfg'] = cfg
    if rng.random() < .35:
        c['layer'] = gen.pick(rng, .0002, .0005)
    if rng.random() < .12:
        c['empty'] = True
    return c




def run(c, mon):
    m = gen.make_model(c)
    p = m.p
    if c['kind'] == 'forced':
        import aeolis.bed
        r = np.random.RandomState(c['seed'] + 1)
        rho = p['rhog'] * (1. - p['porosity'])
        m.p['_time'] = 0.
        for mag in c['mags']:
            s = m.s
            top = s['mass'][:, :, 0, :].copy()
            layer = s['mass'][:, :, 0, :].sum(axis=-1).mean()
            pk = r.normal(r.uniform(-1, .5), 1., s['pickup'].shape) * layer * 10. ** (mag - 1.)
            if r.rand() < .3:
                pk = -np.abs(pk)
            pk = np.minimum(pk, top)
            pk[r.rand(*pk.shape[:2]) < .1] = 0.
            m.set_var('pickup', pk.copy())
            z0 = m.get_var('zb').copy()
            m.s = aeolis.bed.update(m.s, m.p)
            dz = m.get_var('zb') - z0
            exp = -pk.sum(axis=-1) / rho
            if not p['process_bedupdate']:
                mon.close(dz, 0., 'bed-fixed', msg='bed level with bed updating disabled')
                continue
            mon.close(dz, exp, 'bed-mass', rtol=1e-7, atol=1e-9 + 1e-12 * np.abs(z0).max(), msg='bed level change vs exchanged mass')
            mon.close(m.get_var('pickup'), pk, 'pickup-kept', rtol=1e-9, atol=1e-12, msg='reported exchange altered by the bed update')
            over = (-pk.sum(axis=-1) / layer)
            mon.sig('forced', p['nlayers'], p['nfractions'], int(np.clip(over.max(), -2, 20)),
                    int(bool((exp < 0).any())) + 2 * int(bool((exp > 0).any())))
            mon.ev('cells', exp.size)
            mon.ev('cells_with_more_than_a_layer_deposited', (over > 1.).sum())
        return
    acc = p['accfac']
    rho = p['rhog'] * (1. - p['porosity'])
    other = p['process_avalanche'] or p['process_wet_bed_reset']
    avg = m.get_var('dzbavg').copy()
    names = ('zb', 'pickup')
    with trace.Tracer({'bed': names, 'avalanche': names, 'wetreset': names}) as tr:
        for i in range(c['steps']):
            z0 = m.get_var('zb').copy()
            avg = m.get_var('dzbavg').copy()
            t0 = m.t
            m.update()
            z1 = m.get_var('zb')
            pk = m.get_var('pickup')
            log = tr.take()
            ran = [e for e in log if e[0] == 'bed']
            mon.finite(z1, 'finite', 'bed level after step %d' % i)
            calm = np.sum(m.get_var('uw')) == 0
            dt_ = m.t - t0
            mon.ev('steps')
            scale = 1e-10 + 1e-12 * np.abs(z0).max()
            if calm:
                mon.close(z1, z0, 'bed-calm', rtol=0, atol=0, msg='bed level moves without wind')
                if p['scheme'] != 'euler_forward':
                    mon.close(m.get_var('dzb'), 0., 'dzb-reported', rtol=0, atol=0, msg='reported bed level change without wind')
                mon.sig('calm')
                continue
            exp = -pk.sum(axis=-1) / rho
            if not p['process_bedupdate']:
                if not other:
                    mon.close(z1, z0, 'bed-fixed', rtol=0, atol=0, msg='bed level with bed updating disabled')
                exp = exp * 0.
            for st, b, a, _ in ran:
                mon.close(a['zb'] - b['zb'], exp, 'bed-mass', rtol=1e-7, atol=scale,
                          msg='bed level change in step %d vs exchanged mass' % i)
            if not other:
                mon.close(z1 - z0, exp, 'bed-mass', rtol=1e-7, atol=scale, msg='bed level change over step %d vs exchanged mass' % i)
            # reported bed level changes describe what happened
            mon.close(m.get_var('dzb'), z1 - z0, 'dzb-reported', rtol=1e-9, atol=scale, msg='reported bed level change')
            if dt_ > 0:
                yr = (z1 - z0) * (3600. * 24. * 365.25) / dt_
                mon.close(m.get_var('dzbyear'), yr, 'dzbyear-reported', rtol=1e-6, atol=1e-6,
                          msg='reported yearly bed level change')
                n = dt_ / p['avg_time']
                mon.close(m.get_var('dzbavg'), n * yr + (1. - n) * avg, 'dzbavg-reported', rtol=1e-6, atol=1e-6,
                          msg='reported averaged bed level change')
            moved = np.abs(z1 - z0)
            if moved.max() > 0:
                layer = m.get_var('mass')[:, :, 0, :].sum(axis=-1).mean()
                mon.sig(p['scheme'], p['solver'], 'nf%d' % p['nfractions'], 'nl%d' % p['nlayers'], p['ny'] > 0,
                        'acc' if acc != 1 else '', 'over' if (-pk.sum(axis=-1)).max() > layer else '',
                        'ero' if (exp < 0).any() else '', 'dep' if (exp > 0).any() else '')
warmup = gen.warmup
