"""Supply limitation."""
import numpy as np
from harness import gen, trace

ID = 'C04'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random models in which little sediment is available (layers of 0.01-5 mm, time steps up to an hour, strong wind, '
        'graded sediment, coarse or nearly absent classes, non-erodible floors), all solvers and schemes; monitors around '
        'the bed update compare what leaves the bed with what the surface layer holds at that moment.')
ASSUMPTIONS = ['steps for which the solver announces that the supply iteration did not converge are not judged']


def case(rng, k):
    c = gen.base_case(rng, nf=gen.pick(rng, 1, 2, 3, 4, 5), wind=gen.pick(rng, 'const', 'ramp', 'gust', 'turn'))
    c['layer'] = gen.pick(rng, .00001, .0001, .0002, .0005, .001, .005)
    c['umax'] = round(rng.uniform(9, 32), 2)
    c['dt'] = gen.pick(rng, 1., 60., 600., 1800., 3600.)
    c['steps'] = rng.randint(2, 6)
    cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward'))
    if cfg['scheme'] != 'euler_forward':
        cfg['solver'] = gen.pick(rng, 'trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter')
    if rng.random() < .3:
        cfg['bi'] = round(rng.uniform(0, 1), 2)
    if rng.random() < .3:
        cfg['accfac'] = gen.pick(rng, 2., 20.)
    cfg['T'] = gen.pick(rng, .5, 1., 1., 3.)
    if rng.random() < .3:
        c['series'] = dict(ne=gen.pick(rng, .0, .001, .05))
    cfg['method_transport'] = gen.pick(rng, 'bagnold', 'bagnold', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen')
    cfg['max_iter'] = 400
    c['cfg'] = cfg
    if rng.random() < .12:
        c['empty'] = True
    return c


def run(c, mon):
    m = gen.make_model(c)
    p = m.p
    total = np.zeros(m.s['Ct'].shape[:2])
    with trace.Tracer({'bed': ('mass', 'pickup', 'zb'), 'equilibrium': ('mass',)}) as tr:
        for i in range(c['steps']):
            n0 = m.c.get('matrixsolve', 0)
            before = m.get_var('mass')[:, :, 0, :].copy()
            m.update()
            tag = 'step %d' % i
            mon.ev('steps')
            if np.sum(m.s['uw']) == 0:
                tr.take()
                continue
            if m.c.get('matrixsolve', 0) - n0 >= p['max_iter']:
                mon.note('supply iteration not converged (announced by the model)')
                # the bed is no longer in a state the statement speaks about
                return
            log = tr.take()
            pk = m.get_var('pickup')
            have = before
            lim = have + 1.0001 * p['max_error']
            mon.check((pk <= lim).all(), 'supply', lambda: 'exchange %.6g out of a surface layer holding %.6g, %s' % (
                float(pk[pk > lim][0]), float(have[pk > lim][0]), tag))
            mon.check(np.isfinite(pk).all(), 'finite', lambda: 'exchange not finite %s' % tag)
            absent = have <= 0
            if absent.any():
                mon.check((pk[absent] <= 1.0001 * p['max_error']).all(), 'absent-class', lambda: 'a class absent from the surface is picked up: %.3g %s' % (
                    pk[absent].max(), tag))
            Ct = m.s['Ct']
            mon.check(np.isfinite(Ct).all() and Ct.min() >= 0, 'concentration', lambda: 'concentration min %r %s' % (Ct.min(), tag))
            w = m.get_var('w')
            mon.check(np.isfinite(w).all() and w.min() >= -1e-9 and w.sum(-1).max() <= 1 + 1e-6, 'weights',
                      lambda: 'weights between %r and %r, sum up to %r %s' % (w.min(), w.max(), w.sum(-1).max(), tag))
            mass = m.get_var('mass')
            mon.check(np.isfinite(mass).all() and mass.min() >= -2e-6, 'bed-mass', lambda: 'negative mass in the bed: %r %s' % (mass.min(), tag))
            at = (pk >= have * (1 - 1e-3) - 1e-5) & (have > 0) & (pk > 0)
            mon.ev('cells_at_the_supply_limit', at.sum())
            mon.ev('cells', at.size)
            mon.sig(p['solver'], p['scheme'], 'nf%d' % p['nfractions'], 'limited' if at.any() else 'free',
                    'all' if at.all(-1).any() else '', '%s' % c['layer'], 'ne' if p['th_nelayer'] else '')


warmup = gen.warmup
