"""Mixing of the top layers by waves."""
import numpy as np
from harness import gen, trace

ID = 'C26'
N_QUICK, N_THOROUGH = 140, 2800
RULE = ('Random beaches of 1-8 layers, 1-5 classes and any composition under tides and waves with any disturbance factor, masks and '
        'locally varying layer thickness; besides, wave heights imposed on the mixing itself (none, tiny, exactly n layers, far '
        'beyond the layered bed). Masses before and after every mixing are compared with an independent re-evaluation.')
ASSUMPTIONS = ['depth of disturbance: the given fraction of the local wave height for mixing']


def case(rng, k):
    c = gen.base_case(rng, nl=rng.randint(1, 8), nf=gen.pick(rng, 1, 2, 3, 5), layer=gen.pick(rng, .001, .005, .01, .02, .05, .1))
    c['kind'] = ('run', 'imposed')[k % 2]
    c['nx'] = min(c['nx'], 18)
    c['profile'] = gen.pick(rng, 'beach', 'beach', 'dune', 'ridge', 'step')
    c['grain'] = gen.pick(rng, '1d', '2d', 'bedcomp', 'bedcomp')
    c['dt'] = gen.pick(rng, 1., 60., 600.)
    c['steps'] = rng.randint(2, 7) if c['kind'] == 'run' else 1
    c['series'] = dict(tide=[round(rng.uniform(-.5, 1.), 2), round(rng.uniform(.2, 1.2), 2), 3.], wave=[gen.pick(rng, 0., .5, 1., 3.), 6.])
    if rng.random() < .3:
        c['series']['wave_mask'] = [.5, .1]
    if rng.random() < .3:
        c['series']['tide_mask'] = [.5, .1]
    c['cfg'] = dict(process_mixtoplayer=rng.random() < .9, process_tide=True, process_wave=True, process_runup=rng.random() < .5,
                    facDOD=gen.pick(rng, .1, .1, .02, .5, .003), gamma=gen.pick(rng, .5, .5, .8), process_avalanche=False)
    c['uneven'] = rng.random() < .3
    c['mags'] = [gen.pick(rng, 0., 1e-6, .5, 1., 2., 3.5, 20.) for _ in range(8)]
    return c


def reference(mass, th, dod):
    """One column: mass (layers, classes), thickness of the layers, depth of disturbance."""
    out = mass.copy()
    deep = np.cumsum(th)
    n = 0
    while n < len(th) and deep[n] <= dod:
        n += 1
    if dod <= 0. or n == 0:
        return out, 0
    f = min(1., deep[-1] / dod)
    mean = mass[:n].sum(0) / n
    out[:n] = f * mean + (1. - f) * mass[:n]
    return out, n


def judge(mon, b, a, p, tag):
    m0, m1, th, hs = b['mass'], a['mass'], b['thlyr'], b['Hsmix']
    for k in b:
        if k != 'mass' and isinstance(b[k], np.ndarray):
            mon.check(np.array_equal(b[k], a[k], equal_nan=True), 'only-mass', lambda: 'mixing changes %s %s' % (k, tag))
    if not p['process_mixtoplayer']:
        mon.check(np.array_equal(m0, m1), 'off', lambda: 'bed mixed without mixing %s' % tag)
        mon.sig(tag.split()[0], 'off')
        return
    big = np.abs(m0).max()
    mon.close(m1.sum(2), m0.sum(2), 'conserved', rtol=1e-10, atol=1e-12 * big, msg='mass of the classes in the bed %s' % tag)
    dod = p['facDOD'] * hs
    calm = ~(hs > 0)
    mon.check(np.array_equal(m1[calm], m0[calm]), 'no-waves', lambda: 'bed mixed without waves %s' % tag)
    if m0.shape[2]:
        lo, hi = m0.min(2, keepdims=True), m0.max(2, keepdims=True)
        mon.check(((m1 >= lo - 1e-9 * big) & (m1 <= hi + 1e-9 * big)).all(), 'between', lambda: 'mixing leaves the range of the layers %s' % tag)
    deepest = 0
    for ix in np.ndindex(*hs.shape):
        cum = np.cumsum(th[ix])
        if np.any(np.abs(cum - dod[ix]) < 1e-12 * cum):
            alt = [reference(m0[ix], th[ix], dod[ix] * q) for q in (1 - 1e-9, 1 + 1e-9)]
        else:
            alt = [reference(m0[ix], th[ix], dod[ix])]
        deepest = max(deepest, alt[-1][1])
        if not mon.check(any(np.allclose(m1[ix], r, rtol=1e-6, atol=1e-7 * big) for r, _ in alt), 'mixed', lambda: (
                'cell %s, depth of disturbance %g of %g: layers %s become %s, expected %s %s' % (
                    ix, dod[ix], cum[-1], m0[ix].tolist(), m1[ix].tolist(), alt[0][0].tolist(), tag))):
            break
    mon.ev('cells', hs.size)
    mon.ev('cells-mixed', int((dod >= th[..., 0]).sum()))
    mon.sig(tag.split()[0], 'nl%d' % m0.shape[2], 'nf%d' % m0.shape[3], 'mixed%d' % deepest, 'through' if (dod > th.sum(2)).any() else '')


def run(c, mon):
    m = gen.make_model(c)
    r = np.random.RandomState(c['seed'] + 5)
    if c['uneven']:
        m.set_var('thlyr', m.get_var('thlyr') * r.uniform(.3, 3., m.get_var('thlyr').shape))
    if c['kind'] == 'imposed':
        import aeolis.bed
        p = m.p
        for mag in c['mags']:
            th = m.s['thlyr']
            n = r.randint(1, th.shape[2] + 1, th.shape[:2])
            depth = np.take_along_axis(th.cumsum(2), n[:, :, None] - 1, 2)[:, :, 0]
            m.s['Hsmix'] = np.where(r.rand(*depth.shape) < .2, 0., depth * mag / p['facDOD'] * r.choice([1., 1., .7, 1.3], depth.shape))
            b = trace.snap(m.s)
            m.s = aeolis.bed.mixtoplayer(m.s, p)
            a = trace.snap(m.s)
            judge(mon, b, a, p, 'imposed %g' % mag)
            if r.rand() < .4:
                q = m.s['mass'].copy()
                m.s['mass'] = q * r.uniform(0., 2., q.shape)
        return
    with trace.Tracer({'mix': None}) as tr:
        for i in range(c['steps']):
            m.update()
            for _, b, a, args in tr.take():
                judge(mon, b, a, args[1], 'run step %d' % i)
                mon.ev('mixings')
    if tr.missing:
        mon.note('stage missing: %s' % tr.missing)


warmup = gen.warmup
