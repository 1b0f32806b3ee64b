"""Balance of the airborne sediment."""
import numpy as np
from harness import gen, rt

ID = 'C03'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random 1-D/2-D models (graded sediment, oblique/reversing wind, flat and varying saltation velocities, all '
        'cross-shore boundary conditions, all solvers and schemes, supply-limited and transport-limited) stepped through '
        'the public interface; after every step the discretised balance of each grain class is evaluated independently '
        'in every cell whose neighbours are blown in the same direction.')
ASSUMPTIONS = ['circular lateral boundaries in the default solvers', 'fluid and impact threshold equal (as computed by the model)',
               'of steps in which the solver removed negative concentrations only the total is judged']


def case(rng, k):
    fast = k % 8 == 7       # classes moving at different speeds
    c = gen.base_case(rng, '2d' if rng.random() < .6 else '1d', grain='1d', **(dict(nf=rng.randint(2, 4)) if fast else {}), wind=gen.pick(rng, 'const', 'turn', 'gust', 'ramp'))
    c['steps'] = rng.randint(3, 7)
    c['udir'] = round(gen.pick(rng, rng.uniform(200, 340), rng.uniform(20, 160)), 2)
    sch = gen.pick(rng, 'euler_backward', 'euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward')
    solver = gen.pick(rng, 'trunk', 'trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter')
    if fast:
        sch, solver = gen.pick(rng, 'euler_backward', 'crank_nicolson'), gen.pick(rng, 'trunk', 'steadystate')
    if sch == 'euler_forward':
        solver = gen.pick(rng, 'trunk', 'trunk', 'pieter')
    cfg = dict(scheme=sch, solver=solver, T=gen.pick(rng, .5, 1., 1., 2., 5.))
    if sch != 'euler_backward' and 'steady' not in solver:
        # positive (monotone) regime of the partly explicit schemes
        c['dt'] = round(.3 * min(c['dx'], c['dy'] if c['ny'] else 1.) / c['umax'], 4)
        cfg['CFL'] = .5
    if 'pieter' in solver:
        c['layer'] = .05
        cfg['boundary_offshore'] = gen.pick(rng, 'flux', 'flux', 'constant', 'gradient')
        cfg['boundary_onshore'] = gen.pick(rng, 'flux', 'flux', 'gradient', 'constant')
        cfg['offshore_flux'] = gen.pick(rng, 0., 0., .5, 1.)
        cfg['onshore_flux'] = gen.pick(rng, 0., 0., .5, 1.)
        if c['ny']:
            cfg['boundary_lateral'] = gen.pick(rng, 'circular', 'circular', 'flux', 'constant', 'gradient')
            if cfg['boundary_lateral'] == 'flux':
                cfg['lateral_flux'] = gen.pick(rng, 0., .5, 1.)
        cfg['method_grainspeed'] = 'windspeed'
    else:
        if rng.random() < .3:
            c['layer'] = gen.pick(rng, .0002, .0005, .001)
        cfg['boundary_offshore'] = gen.pick(rng, 'constant', 'constant', 'flux', 'uniform', 'gradient')
        cfg['boundary_onshore'] = gen.pick(rng, 'gradient', 'gradient', 'flux', 'uniform', 'constant')
        if solver == 'trunk' and rng.random() < .25:
            cfg[gen.pick(rng, 'boundary_offshore', 'boundary_onshore')] = 'noflux'
        if fast:
            cfg.update(boundary_offshore='constant', boundary_onshore='constant', method_grainspeed='duran')
        if cfg['boundary_offshore'] == 'constant' and rng.random() < .5:
            cfg['constant_offshore_flux'] = round(rng.uniform(0, .02), 4)
        if cfg['boundary_onshore'] == 'constant' and rng.random() < .5:
            cfg['constant_onshore_flux'] = round(rng.uniform(0, .02), 4)
        if cfg['boundary_offshore'] == 'flux':
            cfg['offshore_flux'] = gen.pick(rng, 0., .5, 1.)
        if cfg['boundary_onshore'] == 'flux':
            cfg['onshore_flux'] = gen.pick(rng, 0., .5, 1.)
        if sch == 'euler_backward' or 'steady' in solver:
            if not fast and rng.random() < .35:
                cfg['process_shear'] = c['ny'] == 0 or rng.random() < .5
                cfg['method_grainspeed'] = gen.pick(rng, 'constant', 'duran')
                if cfg['process_shear'] and c['ny']:
                    cfg.update(dx=c['dx'], dy=c['dy'])
                c['profile'] = gen.pick(rng, 'dune', 'bumps', 'ridge')
        if c['ny'] == 0 and rng.random() < .3:
            c['stretch'] = round(rng.uniform(.9, 1.12), 3)
    if rng.random() < .25:
        cfg['bi'] = round(rng.uniform(0., 1.), 2)
    if rng.random() < .2:
        cfg['accfac'] = gen.pick(rng, 5., 20.)
    if rng.random() < .4:
        cfg['method_transport'] = gen.pick(rng, 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen')
        if cfg['method_transport'] in ('kawamura', 'lettau'):
            for q in ('offshore_flux', 'onshore_flux', 'lateral_flux'):
                cfg.pop(q, None)
    c['cfg'] = cfg
    if rng.random() < .12:
        c['empty'] = True
    return c


def nb(a, axis, d, wrap):
    """Value of the neighbour in direction d along axis."""
    r = np.roll(a, -d, axis=axis)
    return r


def faces(mon, p, s, C, C0, us, un, sat, sat0, dt, T, alpha, steady, own, i, tol, scale, tag):
    """Balance over the faces of every cell, boundary cells included (velocities averaged on the faces)."""
    ds, dn, two = s['ds'], s['dn'], p['ny'] > 0
    off, on, lat = p['boundary_offshore'], p['boundary_onshore'], p['boundary_lateral']
    X = alpha * C + (1 - alpha) * C0
    ufs = np.concatenate([us[:, :1], .5 * (us[:, 1:] + us[:, :-1]), us[:, -1:]], 1)
    F = np.zeros(ufs.shape)
    F[:, 1:-1] = np.where(ufs[:, 1:-1] >= 0, X[:, :-1], X[:, 1:]) * ufs[:, 1:-1]
    cu0 = s['Cu0'][:, :, i]
    F[:, 0] = {'flux': ufs[:, 0] * cu0[:, 0] * p['offshore_flux'], 'gradient': F[:, 1], 'constant': 0.}[off]
    F[:, -1] = {'flux': ufs[:, -1] * cu0[:, -1] * p['onshore_flux'], 'gradient': F[:, -2], 'constant': 0.}[on]
    out = (F[:, 1:] - F[:, :-1]) / ds
    if two:
        ufn = np.concatenate([un[:1], .5 * (un[1:] + un[:-1]), un[-1:]], 0)
        if lat == 'circular':
            ufn[0] = ufn[-1] = .5 * (un[0] + un[-1])
        G = np.zeros(ufn.shape)
        G[1:-1] = np.where(ufn[1:-1] >= 0, X[:-1], X[1:]) * ufn[1:-1]
        if lat == 'circular':
            G[0] = G[-1] = np.where(ufn[0] >= 0, X[-1], X[0]) * ufn[0]
        elif lat == 'flux':
            G[0], G[-1] = ufn[0] * cu0[0] * p['lateral_flux'], ufn[-1] * cu0[-1] * p['lateral_flux']
        elif lat == 'gradient':
            G[0], G[-1] = G[1], G[-2]
        out = out + (G[1:] - G[:-1]) / dn
    src = (sat - C) / T if steady else (alpha * (sat - C) + (1 - alpha) * (sat0 - C0)) / T
    res = (0. if steady else (C - C0) / dt) + out - src
    fixed = np.zeros(C.shape, bool)
    if off == 'constant':
        fixed[:, 0] = True
    if on == 'constant':
        fixed[:, -1] = True
    if two and lat == 'constant':
        fixed[[0, -1]] = True
    held = fixed.copy()
    if two and lat != 'constant':
        held[[0, -1]] = False         # lateral exchange is added in the corners
    if (C == 0)[~(fixed if lat == 'circular' else held)].any():
        mon.note('clipped concentrations')
        return 0
    mon.close(C[held], C0[held], 'boundary-fixed', rtol=1e-9, atol=tol, msg='concentration at fixed boundaries, class %d %s' % (i, tag))
    lam = 1. / T + np.abs(us) / ds + np.abs(un) / dn * two + (0. if steady else 1. / dt)
    r = np.where(own & ~fixed, res / lam, 0.)
    mon.ev('cells_balanced', r.size)
    mon.worst('residual_over_scale', np.abs(r).max() / scale)
    b = ~(np.abs(r) <= tol + 1e-7 * scale)
    mon.check(not b.any(), 'balance', lambda: '%d of %d cells out of balance, worst %.3g of %.3g at %s (boundaries %s), class %d %s' % (
        b.sum(), b.size, np.abs(r).max(), scale, tuple(np.argwhere(b)[0]), (off, on, lat), i, tag))
    if alpha == 1.:
        pk = s['pickup'][:, :, i]
        res2 = np.where(fixed, 0., out * dt - pk + (0. if steady else C - C0))
        lim = 3e-6 + 1e-6 * (np.abs(pk) + (np.abs(us) / ds + np.abs(un) / dn * two) * dt * scale)
        e = np.abs(res2) > lim
        mon.check(not e.any(), 'air-bed', lambda: 'airborne gain + outflow differs from what left the bed by %.3g at %s, class %d %s' % (
            np.abs(res2[e]).max(), tuple(np.argwhere(e)[0]), i, tag))
    if not b.any():
        mon.sig('faces', off, on, lat if two else '', bool(p['offshore_flux']), bool(p['onshore_flux']), bool(p['lateral_flux']), bool((us < 0).any()), bool((un < 0).any()))
    return r.size


def clipped(mon, C, raw, tag):
    """What is added to remove negative concentrations is taken from the other cells: the amount in the air is that of the solution."""
    raw = [np.where((q < 0) & (q > -1e-6), 0., q).reshape(C.shape) for q in raw if np.isfinite(q).all()]
    if not any((q < 0).any() for q in raw):
        return
    fit = [abs(max(q.sum(), 0.) - C.sum()) <= 1e-6 * (q.max() + C.max()) * max(1., (q > 0).sum()) ** .5 + 1e-9 * abs(q).sum() and not C[q < 0].any() for q in raw]
    mon.ev('repairs')
    mon.check(any(fit), 'repair', lambda: 'removal of negative concentrations changes the amount in the air from %s to %g %s' % (
        ['%g' % q.sum() for q in raw][-6:], C.sum(), tag))


def judge(mon, c, m, s0, dt, t0, tag, raw=()):
    s, p = m.s, m.p
    nf = p['nfractions']
    T = p['T']
    solver, scheme = p['solver'], p['scheme']
    two = p['ny'] > 0
    ds, dn = s['ds'], s['dn']
    acc = p['accfac']
    alpha = {'euler_forward': 0., 'euler_backward': 1., 'crank_nicolson': .5}[scheme]
    steady = solver.startswith('steady')
    judged = 0
    # where a class ran out, the reported weights are renormalised after use
    own = (s['w'] > 1e-9).all(-1)
    # cells with hardly any saturation concentration in some class: their balance is summed from huge terms of either sign
    with np.errstate(all='ignore'):
        S = np.where(s['Cu'] > 0, np.maximum(s0['Ct'], s['Ct']) / s['Cu'], 0.).sum(-1)
        S = np.maximum(S, np.where(s0['Cu'] > 0, s0['Ct'] / s0['Cu'], 0.).sum(-1))
    noise = 1e-15 * S
    for i in range(nf):
        C, C0 = s['Ct'][:, :, i], s0['Ct'][:, :, i]
        us, un = s['us'][:, :, i], s['un'][:, :, i]
        w, w0 = s['w'][:, :, i], s0['w'][:, :, i]
        sat, sat0 = w * s['Cu'][:, :, i], w0 * s0['Cu'][:, :, i]
        pk = s['pickup'][:, :, i]
        scale = max(np.abs(sat).max(), np.abs(C).max(), 1e-12)
        tol = 1e-7 * scale + 1e-10
        mon.check(C.min() >= 0., 'positive', lambda: 'concentration %r %s' % (C.min(), tag))
        if not mon.check(np.isfinite(C).all(), 'finite', lambda: 'concentration not finite %s' % tag):
            return
        # exchange with the bed relaxes to the weighted saturation
        if 'pieter' not in solver or t0 > 0.:
            mon.close(np.where(own, pk, 0.), np.where(own, (sat - C) * dt / T, 0.), 'exchange-law', rtol=1e-6, atol=2e-6,
                      msg='exchange with the bed vs saturation deficit, class %d %s' % (i, tag))
        # reported fluxes are velocity times concentration
        if not p['alpha']:
            mon.close(s['qs'][:, :, i], us * C, 'flux-reported', rtol=1e-6, atol=1e-9 + 1e-9 * scale, msg='cross-shore flux %s' % tag)
            mon.close(s['qn'][:, :, i], un * C, 'flux-reported', rtol=1e-6, atol=1e-9 + 1e-9 * scale, msg='longshore flux %s' % tag)
        # boundaries
        # negative concentrations (possible next to extrapolated boundaries only) are replaced by zeros and all
        # others are scaled: no balance to judge
        risky = (alpha < 1. and not steady) or 'gradient' in (p['boundary_offshore'], p['boundary_onshore']) \
            or p['method_grainspeed'] == 'duran' or p['process_shear']
        skip = risky and bool((C[:, 1:-1] == 0).any() or
                                              (p['boundary_offshore'] == 'gradient' and (C[:, 0] == 0).any()) or
                                              (p['boundary_onshore'] == 'gradient' and (C[:, -1] == 0).any()))
        if skip:
            mon.note('clipped concentrations')
            if raw and 'pieter' not in solver:
                clipped(mon, C, [q for q in raw if q.shape == (C.size,)], 'class %d %s' % (i, tag))
            continue
        if 'pieter' not in solver:
            for side, bc, a, b, d, r in (('offshore', p['boundary_offshore'], 0, 1, 2, ds[:, 1] / ds[:, 2]),
                                         ('onshore', p['boundary_onshore'], -1, -2, -3, ds[:, -2] / ds[:, -3])):
                if bc == 'gradient':
                    ext = C[:, b] * (1 + r) - C[:, d] * r
                    exp = ext
                elif bc == 'noflux':
                    exp = 0.
                elif bc == 'uniform':
                    exp = C[:, b]
                elif bc == 'constant':
                    exp = p['constant_%s_flux' % side] / s['u'][:, a, i]
                elif bc == 'flux':
                    exp = p['%s_flux' % side] * s['Cu0'][:, a, i]
                mon.close(C[:, a], exp, 'boundary-' + side, rtol=1e-6, atol=tol,
                          msg='%s boundary (%s), class %d %s' % (side, bc, i, tag))
        if 'pieter' in solver:
            if t0 > 0.:
                judged += faces(mon, p, s, C, C0, us, un, sat, sat0, dt, T, 1. if steady else alpha, steady, own, i, tol, scale, tag)
            continue
        ok = np.ones(C.shape, bool)
        ok[:, [0, -1]] = False

        def sign_ok(u, axis):
            a, b = np.roll(u, 1, axis), np.roll(u, -1, axis)
            return ((u >= 0) & (a >= 0) & (b >= 0)) | ((u < 0) & (a < 0) & (b < 0))

        ok &= sign_ok(us, 1)
        if two:
            ok &= sign_ok(un, 0)
        # net outflow per unit area for concentration field X (upwind)
        def div(X):
            f = us * X
            o = np.where(us >= 0, f - np.roll(f, 1, 1), np.roll(f, -1, 1) - f) / ds
            if two:
                g = un * X
                o = o + np.where(un >= 0, g - np.roll(g, 1, 0), np.roll(g, -1, 0) - g) / dn
            return o
        if steady:
            res = div(C) - (sat - C) / T
            sc = T
        else:
            res = (C - C0) / dt + alpha * (div(C) - (sat - C) / T) + (1 - alpha) * (div(C0) - (sat0 - C0) / T)
            sc = dt / (1. + dt / T)
        sc = 1. / (1. / sc + np.abs(us) / ds + np.abs(un) / dn * two)
        r = np.where(ok & own, res * sc, 0.)
        mon.worst('residual_over_scale', np.abs(r).max() / scale)
        mon.ev('cells_balanced', ok.sum())
        judged += int(ok.sum())
        b = ~(np.abs(r) <= tol + 1e-7 * scale + noise * scale)
        mon.check(not b.any(), 'balance', lambda: '%d of %d cells out of balance, worst %.3g of %.3g at %s, class %d %s' % (
            b.sum(), ok.sum(), np.abs(r).max(), scale, tuple(np.argwhere(b)[0]), i, tag))
        # what the air gains is what the bed loses (implicit schemes)
        if (alpha == 1. or steady):
            res2 = div(C) * dt - pk + (0. if steady else C - C0)
            lim = 3e-6 + 1e-6 * (np.abs(pk) + np.abs(us) * dt / ds * scale + np.abs(un) * dt / dn * two * scale)
            b = ok & (np.abs(res2) > lim)
            mon.check(not b.any(), 'air-bed', lambda: 'airborne gain + outflow differs from what left the bed by %.3g at %s, class %d %s' % (
                np.abs(res2[b]).max(), tuple(np.argwhere(b)[0]), i, tag))
    if judged:
        lim_ = bool((s['w'].sum(-1) < 1 - 1e-6).any())
        mon.sig(solver, scheme, '2d' if two else '1d', 'nf%d' % nf, p['boundary_offshore'], p['boundary_onshore'],
                'limited' if lim_ else '', 'bw' if (s['us'] < 0).any() else '', p['method_grainspeed'],
                'sheared' if p['process_shear'] else '', 'acc' if acc != 1 else '')


class Solutions(object):
    """Solutions of the linear systems during a step."""

    def __enter__(self):
        import scipy.sparse.linalg as la
        self.la, self.orig, out = la, la.spsolve, []

        def spsolve(*a, **kw):
            x = self.orig(*a, **kw)
            out.append(np.array(x))
            return x
        la.spsolve = spsolve
        return out

    def __exit__(self, *a):
        self.la.spsolve = self.orig


def run(c, mon):
    m = gen.make_model(c)
    for i in range(c['steps']):
        s0 = {k: m.s[k].copy() for k in ('Ct', 'w', 'Cu')}
        t0 = m.t
        n0 = m.c.get('matrixsolve', 0)
        with Solutions() as raw:
            m.update()
        if m.c.get('matrixsolve', 0) - n0 >= m.p['max_iter']:
            mon.note('supply iteration not converged (announced by the model)')
            continue
        mon.ev('steps')
        dt = (m.t - t0) / m.p['accfac']
        if not mon.check(dt > 0., 'advance', lambda: 'time step of %g s' % dt):
            break
        if np.sum(m.s['uw']) == 0:
            mon.close(m.s['Ct'], s0['Ct'], 'calm', msg='concentration changes without wind')
            continue
        judge(mon, c, m, s0, dt, t0, 'step %d' % i, raw)


warmup = gen.warmup
