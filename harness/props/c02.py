"""Bookkeeping of sediment in the bed layers."""
import numpy as np
from harness import gen, trace

ID = 'C02'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random complete models (graded sediment, 1-5 bed layers, 1-D / per-layer / per-cell initial composition, all '
        'schemes and solvers) stepped publicly, alternated with hostile exchange fields forced on the bed update, among '
        'them mixed erosion/deposition per cell and deposits of up to 50 layers.')
ASSUMPTIONS = ['all layers of a cell initially hold the same mass (one layer_thickness), as in every documented set-up']


def case(rng, k):
    c = gen.base_case(rng, nf=gen.pick(rng, 1, 2, 2, 3, 4), nl=gen.pick(rng, 1, 2, 3, 4, 5))
    c['kind'] = 'forced' if k % 2 else 'model'
    cfg = {}
    if c['kind'] == 'forced':
        c['mags'] = [round(rng.uniform(-4, 1.7), 3) for _ in range(rng.randint(2, 6))]
    else:
        cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_backward', 'euler_forward', 'crank_nicolson'))
        if cfg['scheme'] != 'euler_forward':
            cfg['solver'] = gen.pick(rng, 'trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter')
        if rng.random() < .4:
            c['layer'] = gen.pick(rng, .0002, .0005, .001)
        if rng.random() < .2:
            cfg['process_bedupdate'] = False
        if rng.random() < .2:
            cfg['bi'] = round(rng.uniform(0, 1), 2)
    c['cfg'] = cfg
    if rng.random() < .12:
        c['empty'] = True
    return c


def source(m, shape):
    """Composition of the sediment below the lowest layer, from the user's input."""
    p = m.p
    nf, nl = p['nfractions'], p['nlayers']
    if isinstance(p['bedcomp_file'], np.ndarray):
        g = np.asarray(p['bedcomp_file'], float).reshape(shape[0], shape[1], nl, nf)[:, :, -1, :]
    elif np.ndim(p['grain_dist']) == 2:
        g = np.asarray(p['grain_dist'], float)[-1, :]
    else:
        g = np.asarray(p['grain_dist'], float).reshape(-1)
    g = g / g.sum(axis=-1, keepdims=True)
    return np.broadcast_to(g, (shape[0], shape[1], nf))


def reference(m0, pk, src):
    """Independent statement of the layer exchange for one cell where the deposit fits in one layer."""
    nl, nf = m0.shape
    m = m0.copy()
    D = -pk.sum()
    if D <= 0:
        comp = [row / row.sum() for row in m0]
        m[0] -= pk
        for i in range(1, nl):
            m[i - 1] += -D * comp[i]
            m[i] -= -D * comp[i]
        m[nl - 1] += -D * src
        return m
    ero, dep = np.maximum(pk, 0), np.maximum(-pk, 0)
    if ero.sum() > 0:
        # eroded grains are first replaced by deposited ones
        share = dep / dep.sum() * ero.sum()
        m[0] += share - ero
        dep = dep - share
    comp = [row / row.sum() for row in m]
    m[0] += dep
    for i in range(nl):
        m[i] -= D * comp[i]
        if i + 1 < nl:
            m[i + 1] += D * comp[i]
    return m


def judge(mon, b, a, pk, src, tag):
    """b, a: mass (ny,nx,nl,nf) before/after; pk: exchange (positive: out of the bed)."""
    nl, nf = b.shape[2:]
    tot0, tot1 = b.sum(-1), a.sum(-1)
    big = max(1., float(np.abs(tot0).max()))
    D = -pk.sum(-1)
    top = b[:, :, 0, :].sum(-1)
    mon.close(tot1, tot0, 'layer-mass', rtol=1e-7, atol=1e-5 + 1e-9 * big, msg='mass per layer %s' % tag)
    mon.check(a.min() >= -1e-6 - 1e-9 * big, 'non-negative', lambda: 'mass %r in a layer %s' % (a.min(), tag))
    if nf > 0:
        out = b.sum(2) - pk - a.sum(2)      # what left the layered bed through its bottom (negative: entered)
        ero = D < 0
        if ero.any():
            mon.close(-out[ero], -D[ero][:, None] * src[ero], 'bottom-source', rtol=1e-6, atol=1e-5 + 1e-9 * big,
                      msg='sediment entering from below the layers %s' % tag)
        mon.check((out[~ero] >= -1e-5 - 1e-9 * big).all() if (~ero).any() else True, 'no-creation',
                  lambda: 'a fraction gained %r out of nothing %s' % (-out[~ero].min(), tag))
        mon.close(out.sum(-1), D, 'bottom-total', rtol=1e-6, atol=1e-5 + 1e-9 * big, msg='mass leaving at the bottom %s' % tag)
    n_ref = n_over = 0
    for ix in np.ndindex(*D.shape):
        if D[ix] < top[ix] * (1 - 1e-9):
            r = reference(b[ix], pk[ix], src[ix])
            n_ref += 1
            if r.min() < -1e-9 * big:
                continue     # more eroded of a fraction than present: limited by the negative-mass rules
            if not mon.close(a[ix], r, 'exchange', rtol=1e-6, atol=2e-6 + 1e-9 * big, msg='layer composition %s cell %s' % (tag, ix)):
                break
        else:
            n_over += 1
            # at least floor(D/top) layers (up to all) hold only fresh deposits
            full = int(min(nl, np.floor(D[ix] / top[ix] + 1e-12)))
            dep = np.maximum(-pk[ix], 0)
            if (pk[ix] <= 0).all() and dep.sum() > 0 and full >= 1:
                fresh = dep / dep.sum()
                mon.close(a[ix][0] / a[ix][0].sum(), fresh, 'fresh-top', rtol=1e-6, atol=1e-6,
                          msg='top layer after burial %s cell %s' % (tag, ix))
    mon.ev('cells_against_reference', n_ref)
    mon.ev('cells_buried_by_more_than_a_layer', n_over)
    mon.sig(tag.split()[0], 'nl%d' % nl, 'nf%d' % nf, 'ero' if (D < 0).any() else '', 'dep' if (D > 0).any() else '',
            'mixed' if ((pk.max(-1) > 0) & (pk.min(-1) < 0)).any() else '', 'over%d' % min(n_over, 3))


def run(c, mon):
    m = gen.make_model(c)
    shape = m.get_var('zb').shape
    src = source(m, shape)
    # initial composition: every layer holds density x thickness of sediment in the specified proportions
    p = m.p
    m0 = m.get_var('mass')
    if not isinstance(p['bedcomp_file'], np.ndarray):
        g = np.atleast_2d(np.asarray(p['grain_dist'], float))
        g = np.broadcast_to(g, (p['nlayers'], p['nfractions'])) if g.shape[0] == 1 else g
        g = g / g.sum(-1, keepdims=True)
        mon.close(m0, p['rhog'] * (1 - p['porosity']) * c['layer'] * g[None, None], 'initial-mass', rtol=1e-9,
                  msg='initial mass')
    else:
        mon.close(m0, np.asarray(p['bedcomp_file']).reshape(m0.shape), 'initial-mass', msg='initial mass')
    if c['kind'] == 'forced':
        import aeolis.bed
        r = np.random.RandomState(c['seed'] + 1)
        p['_time'] = 0.
        for mag in c['mags']:
            b = m.s['mass'].copy()
            layer = b[:, :, 0, :].sum(-1).mean()
            pk = r.normal(r.uniform(-1, .7), 1., b[:, :, 0, :].shape) * layer * 10. ** (mag - 1.)
            if r.rand() < .4:
                pk = -np.abs(pk)
            pk = np.minimum(pk, b[:, :, 0, :] * r.choice([1., .999, .5]))
            pk[r.rand(*pk.shape[:2]) < .1] = 0.
            m.set_var('pickup', pk.copy())
            m.s = aeolis.bed.update(m.s, p)
            judge(mon, b, m.get_var('mass').copy(), pk, src, 'forced x10^%.2f' % mag)
        return
    with trace.Tracer({'bed': ('mass', 'pickup')}) as tr:
        for i in range(c['steps']):
            b = m.get_var('mass').copy()
            m.update()
            a = m.get_var('mass').copy()
            mon.ev('steps')
            if np.sum(m.get_var('uw')) == 0:
                mon.close(a, b, 'calm', rtol=0, atol=0, msg='bed composition changes without wind')
                continue
            judge(mon, b, a, m.get_var('pickup').copy(), src, 'model step %d' % i)


warmup = gen.warmup
