"""Wind over topography: the two-dimensional perturbation and flow separation, against an independent reference."""
import numpy as np
from scipy.special import kv
from harness import gen, trace

ID = 'C32'
N_QUICK, N_THOROUGH = 110, 1800
RULE = ('Real models with the shear model on: dunes, walls, pits, several brinks and gentle hills under wind from any side, '
        'with and without flow separation. 2-D fields are compared with an independent boundary-layer reference in '
        'wind-aligned coordinates; transects with the separation polynomial, their mirror image and other wind speeds.')
ASSUMPTIONS = ['the extent of the computational grid is the code\'s own choice (it has to cover the domain)',
               'no filtering of the separation surface']
CASE_LIMIT = 60
MODES = ('line', 'field', 'line', 'sep2', 'line', 'sep2')


def case(rng, k):
    mode = MODES[k % len(MODES)]
    two = mode != 'line'
    c = gen.base_case(rng, '2d' if two else '1d', grain='1d', nf=1, nl=1, wind='const')
    c['mode'] = mode
    c['steps'] = 2 if two else rng.randint(1, 3)
    c['umax'] = round(rng.uniform(4, 16), 2)
    c['dt'] = gen.pick(rng, 1., 60.)
    c['udir'] = round(gen.pick(rng, rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(250, 290), 270., 90.), 2)
    c['shape'] = gen.pick(rng, 'slip', 'slip', 'slip', 'wall', 'two', 'gentle', 'pit')
    c['amp'] = round(rng.uniform(.6, 4.), 2)
    c['where'] = round(rng.uniform(.3, .6), 3)
    c['zoff'] = gen.pick(rng, 0., round(rng.uniform(0, 2), 2), round(rng.uniform(-2, 6), 2))
    cfg = dict(process_shear=True, process_separation=mode != 'field' or rng.random() < .3)
    if rng.random() < .6:
        cfg['mu_b'] = gen.pick(rng, 10., 20., 25., 35.)
    if rng.random() < .6:
        cfg['c_b'] = gen.pick(rng, .1, .25, .4, .6)
    if two:
        c['nx'], c['ny'] = rng.randint(18, 40), rng.randint(8, 24)
        c['dx'] = gen.pick(rng, 1., 2., 2.5)
        c['dy'] = gen.pick(rng, c['dx'], 1., 2.)
        c['rot'] = gen.pick(rng, 0., 0., 0., round(rng.uniform(-40, 40), 1))
        c['amp'] = round(rng.uniform(.1, .25) * c['dx'] * 6, 2)
        cfg.update(dx=c['dx'], dy=gen.pick(rng, c['dx'], c['dy']), buffer_width=gen.pick(rng, 10., 20., 50.), L=gen.pick(rng, 40., 100., 200.))
        cfg['l'] = gen.pick(rng, 5., 10.)
        cfg['k'] = gen.pick(rng, .0005, .001, .01)
        if rng.random() < .3:
            cfg['method_roughness'] = gen.pick(rng, 'constant_nikuradse', 'mean_grainsize_initial')
        if rng.random() < .2:
            cfg['zsep_y_filter'] = True
        if c['shape'] == 'gentle' and mode == 'sep2':
            c['shape'] = 'slip'
    else:
        c['nx'] = rng.randint(40, 120)
        c['dx'] = gen.pick(rng, .5, 1., 1., 2.)
        c['udir'] = gen.pick(rng, 270., 270., 90., 90., c['udir'])
        cfg['dx'] = c['dx']
    c['cfg'] = cfg
    c['grow'] = rng.random() < .3
    return c


def bed(c, X, Y):
    """Features in the direction of the x axis (or against it), on sloping or level ground."""
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    sh, h = c['shape'], c['amp']
    L = X.max()
    flip = r.rand() < .5
    if c['mode'] == 'line':
        flip = 180 > c['udir'] % 360     # lee on the lee side, mostly
        if r.rand() < .15:
            flip = not flip
    x = L - X if flip else X.copy()
    crest = c['where'] * L
    if c['ny']:
        # crest line bends across the domain
        crest = crest + r.uniform(-.15, .15) * L * np.sin(2 * np.pi * Y / max(Y.max(), 1e-9) + r.uniform(0, 6))
    tan = np.tan(np.deg2rad(r.uniform(32, 42) if r.rand() < .7 else r.uniform(8, 30)))
    stoss = h / (np.tan(np.deg2rad(r.uniform(3, 9))))
    up = np.clip(1 + (x - crest) / stoss, 0, 1)
    base = h * (up ** 2 * (3 - 2 * up))
    lee = np.clip(1 - (x - crest) * tan / h, 0, 1)
    if sh == 'wall':
        lee = (x < crest + c['dx']) * 1.
    z = np.where(x <= crest, base, h * lee)
    if sh == 'two':
        h2, c2 = h * r.uniform(.3, .9), crest + r.uniform(.2, .35) * L
        up2 = np.clip(1 + (x - c2) / (h2 / .15), 0, 1)
        z = np.maximum(z, np.where(x <= c2, h2 * up2, h2 * np.clip(1 - (x - c2) * tan / h2, 0, 1)))
    elif sh == 'pit':
        z = -z
    elif sh == 'gentle':
        w = r.uniform(.1, .2) * L
        z = min(h, .2 * w) * np.exp(-((x - crest) / w) ** 2)
        if c['ny']:
            z = z * np.exp(-((Y - Y.mean()) / (.3 * Y.max() + 1e-9)) ** 2)
    if c['ny'] and r.rand() < .5:
        z = z * np.clip(1.3 - abs(Y - Y.mean()) / (Y.max() + 1e-9) * r.uniform(.5, 2.), .0, 1.)
    ground = c['zoff']
    if r.rand() < .4:
        ground = ground + r.uniform(-.02, .02) * X
    return z + ground


def make(c, mut=None):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(dict(c, profile='flat'))
    X, Y = np.meshgrid(np.arange(c['nx'] + 1) * c['dx'], np.arange(c['ny'] + 1) * c['dy'])
    arr['bed'] = bed(c, X, Y)
    if mut:
        mut(cfg, arr)
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


# ------------------------------------------------------------------ transects
def transect_options(x, z, dx, c, mu):
    """Admissible separation surfaces of a transect with wind along +x: list of (start, inner end, outer end, surface)."""
    sl = np.diff(z) / dx
    steep = np.rad2deg(np.arctan(sl)) < -mu
    near = abs(np.rad2deg(np.arctan(sl)) + mu).min() < 1e-6
    st = steep.copy()
    st[1:-1] |= steep[:-2]
    first = np.flatnonzero(st & ~np.concatenate([[False], st[:-1]]))
    return steep, first, near


def cubic(x, z, i, c):
    h = z[i]
    ls = np.clip(1.5 * h / c, .1, 200.)
    t = (x - x[i]) / ls
    return h * (1 - 3 * t ** 2 + 2 * t ** 3), ls


def line(c, m, mon, tag):
    s, p = m.s, m.p
    zb, zs = s['zb'][0].copy(), s['zsep'][0].copy()
    hs = zs - zb
    mon.check((hs >= -1e-9).all(), 'above-bed', lambda: 'separation surface %g m below the bed %s' % (-hs.min(), tag))
    mon.close(s['hsep'][0], hs, 'height', rtol=0, atol=1e-9, msg='height of the separation surface %s' % tag)
    ud = s['udir'][0, 0] % 360.
    perp = abs(abs(ud - 180.) - 90.) < 1e-6
    left = ud < 180.
    x = s['x'][0] - s['x'][0, 0]
    z, h = (zb[::-1], hs[::-1]) if left else (zb, hs)
    dx = c['dx']
    cosa = abs(np.sin(np.deg2rad(ud)))
    if cosa < .05:
        return
    de = dx / cosa
    steep, first, near = transect_options(x, z, de, p['c_b'], p['mu_b'])
    n = len(z)
    if near:
        return
    # boundary cells carry the slope of their neighbour
    inner = steep.copy()
    inner[0] = steep[1]
    if not inner.any():
        mon.check((h <= 1e-9).all(), 'no-lee', lambda: 'separation of %g m without a lee slope steeper than %g degrees %s' % (h.max(), p['mu_b'], tag))
        mon.sig('line', 'none', c['shape'], int(ud // 45))
        return
    mon.ev('brinks', len(first))
    f0 = int(np.flatnonzero(inner)[0])
    mon.check((h[:max(f0 - 4, 0)] <= 1e-9).all(), 'upwind', lambda: 'separation %g m high upwind of the first brink %s' % (h[:max(f0 - 4, 0)].max(), tag))
    mon.sig('line', len(first), c['shape'], int(ud // 45), 'left' if left else '', p['c_b'], p['mu_b'], 'high' if z.min() > .5 else '', 'below' if (z < 0).any() else '')
    if not perp or steep[0] or first[0] < 6:
        return
    # the surface behind each brink (away from other wakes) is the separation polynomial from the brink
    free = 0
    for q, f in enumerate(first):
        nxt = first[q + 1] - 5 if q + 1 < len(first) else n
        # (the height of the brink counts from the datum, the ground should not be below it)
        ok = f - 8 > free and f < n - 4 and z[f - 4:nxt].min() >= -1e-9
        best = None
        for i in range(max(f - 4, 3), f + 1):
            err, lo, hi = wake(x, z, h, dx, i, p['c_b'], nxt, free)
            free_q = max(hi, best[3]) if best else hi
            if best is None or err < best[0]:
                best = (err, i, lo, free_q)
            else:
                best = best[:3] + (free_q,)
        free = max(free, best[3])
        if not ok:
            continue
        mon.ev('polynomials')
        mon.worst('polynomial', best[0])
        mon.check(best[0] < 1e-6 * (1 + abs(z).max()), 'polynomial',
                  lambda: 'separation surface behind the brink at cell %d (wind from %g, height %g, slope %g) is off the polynomial by %g m %s' % (
                      f, ud, z[f], p['c_b'], best[0], tag))


def wake(x, z, h, dx, i, c, nxt, free):
    """Difference from the polynomial starting at cell i, cells it certainly covers, cells it may cover."""
    n = len(z)
    y, ls = cubic(x, z, i, c)
    slopes = [(z[i] - z[i - 1]) / dx, (z[i - 1] - z[i - 2]) / dx, (z[i] - z[i - 3]) / dx / 3.]
    rise = [j for j in range(i + 4, n) if j >= n - 2 or z[j + 1] >= z[j] - 1e-12]
    drops = [z[i]] + [z[i] - z[j] for j in rise[:3]]
    reach = []
    for d in slopes:
        a = d / c
        reach += [np.clip(1.5 * b / c * (1 + a / 4. + a ** 2 / 8.), .1, 200.) for b in drops]
    lo = i + min(int(min(min(reach), ls) / dx), n - 1 - i) - 1
    hi = i + min(int(max(reach) / dx), n - 1 - i) + 2
    want = np.maximum(y - z, 0.)
    e, o = min(lo, nxt), min(hi, nxt)
    gap = h[free:i]
    err = max(abs(h[i:e] - want[i:e]).max() if e > i else 0., gap.max() if gap.size else 0., h[hi:nxt].max() if hi < nxt else 0.)
    if o > i:
        # the end of the wake is cut off somewhere in between
        err = max(err, np.minimum(abs(h[i:o] - want[i:o]), abs(h[i:o])).max())
    return err, lo, hi


# ------------------------------------------------------------------ fields
def regular(v, x, y, xi, yi, outside=None):
    """Bilinear interpolation on a regular grid (ascending axes); constant beyond the edges unless `outside`."""
    out = (xi < x[0] - 1e-9) | (xi > x[-1] + 1e-9) | (yi < y[0] - 1e-9) | (yi > y[-1] + 1e-9)
    xq, yq = np.clip(xi, x[0], x[-1]), np.clip(yi, y[0], y[-1])
    j = np.clip(np.searchsorted(x, xq, side='right') - 1, 0, len(x) - 2)
    i = np.clip(np.searchsorted(y, yq, side='right') - 1, 0, len(y) - 2)
    a = (xq - x[j]) / (x[j + 1] - x[j])
    b = (yq - y[i]) / (y[i + 1] - y[i])
    r = (v[i, j] * (1 - a) + v[i, j + 1] * a) * (1 - b) + (v[i + 1, j] * (1 - a) + v[i + 1, j + 1] * a) * b
    if outside is not None:
        r = np.where(out, outside, r)
    return r


def turn(x, y, deg, o=(0., 0.)):
    """Clockwise by `deg` about o."""
    a = np.deg2rad(deg)
    u, v = x - o[0], y - o[1]
    return u * np.cos(a) + v * np.sin(a) + o[0], -u * np.sin(a) + v * np.cos(a) + o[1]


def surface(z, dx, c, mu, smooth=False):
    """Separation surface of wind-aligned rows; also whether a discontinuous choice was close."""
    out = z.copy()
    near = edge = False
    ny, nx = z.shape
    sl = np.zeros(z.shape)
    sl[:, :-2] = np.rad2deg(np.arctan((z[:, 2:] - z[:, :-2]) / (2. * dx)))
    sl[:, -2:] = sl[:, -3:-2]
    n = 0
    for j in range(ny):
        st = sl[j] < -mu
        near |= bool((abs(sl[j] + mu) < 1e-8).any())
        st2 = st.copy()
        st2[1:-1] |= st[:-2]                       # slopes stay detached for one more cell
        edge |= bool((st2[1:4] & ~st2[:3]).any())
        for i in range(3, nx - 1):
            # wind detaches at the cell of the first steep slope
            if st2[i] and not st2[i - 1]:
                n += 1
                rest = sl[j, i + 5:]
                up = np.flatnonzero(rest >= 0)
                drop = z[j, i] - z[j, i + 5 + up[0]] if up.size else z[j, i]
                for eps in (-1e-10, 1e-10):
                    u2 = np.flatnonzero(rest >= eps)
                    d2 = z[j, i] - z[j, i + 5 + u2[0]] if u2.size else z[j, i]
                    near |= abs(d2 - drop) > 1e-8
                s0 = (z[j, i] - z[j, i - 3]) / (3. * dx)
                a = s0 / c
                ls = min(max(1.5 * drop / c * (1 + a / 4. + a * a / 8.), .1), 200.)
                near |= abs(ls / dx - round(ls / dx)) < 1e-8 and .1 < ls < 200.
                e = min(i + int(ls / dx) + 1, nx - 1)
                t = np.arange(e - i) * dx / ls
                q = z[j, i] + s0 * ls * t * (1 - t) ** 2 - drop * t ** 2 * (3 - 2 * t)
                out[j, i:e] = np.maximum(out[j, i:e], q)
    if smooth:
        w = np.exp(-.5 * (np.arange(-1, 2) / .2) ** 2)
        o = np.pad(out, ((1, 1), (0, 0)), 'edge')
        out = np.maximum((o[:-2] * w[0] + o[1:-1] * w[1] + o[2:] * w[2]) / w.sum(), z)
    return out, near, edge, n


def perturb(z, dx, dy, l, L, z0):
    """Relative stress perturbation of a bed in wind-aligned coordinates (Weng et al. 1991)."""
    ny, nx = z.shape
    kx, ky = np.meshgrid(2 * np.pi * np.fft.fftfreq(nx, dx), 2 * np.pi * np.fft.fftfreq(ny, dy))
    h = np.fft.fft2(z)
    mean = kx == 0
    kx = np.where(mean, 2 * np.pi / (nx * dx), kx)
    h = np.where(mean, 0, h)
    lg = np.log(99.)
    with np.errstate(divide='ignore'):
        wx = 2 * np.pi / abs(kx) / dx           # wave length in cells
        wy = 2 * np.pi / abs(ky) / dy
    h = h / (1 + np.exp(-(wx - 1) * lg / 1.)) / (1 + np.exp(-(wy - 1) * lg / 2.))
    L4 = L / 4.
    for i in range(5):
        l = 2 * .41 ** 2 * L4 / np.log(l / z0)
    hm = 1.
    for i in range(5):
        hm = L4 / np.sqrt(np.log(hm / z0))
    ul = np.log(l / z0) / np.log(hm / z0)
    k = np.hypot(kx, ky)
    sg = np.sqrt(1j * L4 * kx * z0 / l)
    with np.errstate(all='ignore'):
        tx = h * kx ** 2 / k * 2 / ul ** 2 * (-1 + (2 * np.log(l / z0) + (k / kx) ** 2) * sg * kv(1, 2 * sg) / kv(0, 2 * sg))
        ty = h * kx * ky / k * 2 / ul ** 2 * 2 * np.sqrt(2.) * sg * kv(1, 2 * np.sqrt(2.) * sg)
    return np.real(np.fft.ifft2(tx)), np.real(np.fft.ifft2(ty))


def field(c, m, mon, before, after, seen, tag):
    p = m.p
    ws = m.s['shear']
    gc = ws.cgrid
    if 'xi' not in gc or 'yi' not in gc:
        mon.note('no computational grid')
        return
    X, Y = before['x'], before['y']
    o = (X.mean(), Y.mean())
    ud = before['udir'][0, 0]
    ang = 270. - ud
    gx, gy = gc['xi'][0], gc['yi'][:, 0]
    ddx, ddy = gx[1] - gx[0], gy[1] - gy[0]
    mon.close(np.diff(gx), p['dx'], 'grid', rtol=1e-9, msg='cells of the computational grid along the wind %s' % tag)
    mon.close(np.diff(gy), p['dy'], 'grid', rtol=1e-9, msg='cells of the computational grid across the wind %s' % tag)
    # real cells in wind-aligned coordinates
    rx, ry = turn(X, Y, ang, o)
    half = .5 * p['buffer_width']
    mon.check(rx.min() - half > gx[0] and rx.max() + half < gx[-1] and ry.min() - half > gy[0] and ry.max() + half < gy[-1], 'covers',
              lambda: 'the computational grid does not cover the domain and its buffer %s' % tag)
    # computational cells in grid coordinates
    cx, cy = turn(*np.meshgrid(gx, gy), -ang, o)
    # (the grid itself may be rotated at this stage)
    rot = np.rad2deg(np.arctan2(Y[0, 1] - Y[0, 0], X[0, 1] - X[0, 0]))
    lx, ly = turn(cx - X[0, 0], cy - Y[0, 0], rot)
    ax, ay = np.arange(c['nx'] + 1) * c['dx'], np.arange(c['ny'] + 1) * c['dy']
    z = regular(before['zb'], ax, ay, lx, ly)
    t0 = (before['taus0'][0, 0], before['taun0'][0, 0])
    if t0[0] == 0 and t0[1] == 0:
        return
    tx, ty = turn(np.full(z.shape, t0[0]), np.full(z.shape, t0[1]), ang)
    tot = np.hypot(*t0)
    mon.check(tx.mean() > .999 * tot, 'aligned', lambda: 'wind %g, stress components %r are not along the wind %s' % (ud, t0, tag))
    near, edge, nb = False, False, 0
    zz = z
    if p['process_separation']:
        if seen:
            mon.close(seen[-1], z, 'bed', rtol=1e-7, atol=1e-7, msg='bed on the computational grid %s' % tag)
            z = seen[-1]
        if tx.sum() < 0:
            return
        zz, near, edge, nb = surface(z, ddx, p['c_b'], p['mu_b'], p['zsep_y_filter'])
        if edge or near and not seen:
            # no slope is known upwind of a brink right at the upwind border of the computational grid
            mon.note('brink at the border' if edge else 'close call')
            return
        mon.ev('brinks', nb)
    z0 = ws.z0
    if np.size(z0) > 1:
        z0 = regular(np.broadcast_to(z0, X.shape), ax, ay, lx, ly)
    if before['uw'][0, 0] == 0:
        return
    px, py = perturb(zz, ddx, ddy, p['l'], p['L'], z0)
    fx, fy = np.maximum(tx + tot * px, 0.), ty + tot * py
    hs = zz - z
    if p['process_separation']:
        red = np.clip(1 - 10. * hs, 0., 1.)
        fx, fy = fx * red, fy * red
        mon.ev('sheltered', (red < .5).sum())
    fx, fy = turn(fx, fy, -ang)
    tol = dict(rtol=1e-6, atol=1e-6 * tot * (1 + abs(px).max()))
    mon.close(after['taus'], regular(fx, gx, gy, rx, ry), 'stress-field', msg='taus over the bed (wind from %g) %s' % (ud, tag), **tol)
    mon.close(after['taun'], regular(fy, gx, gy, rx, ry), 'stress-field', msg='taun over the bed (wind from %g) %s' % (ud, tag), **tol)
    if p['process_separation']:
        hr = regular(hs, gx, gy, rx, ry)
        mon.close(after['hsep'], hr, 'separation-field', rtol=1e-6, atol=1e-7, msg='height of the separation surface (wind from %g) %s' % (ud, tag))
        mon.close(after['zsep'], before['zb'] + after['hsep'], 'height', rtol=0, atol=1e-9, msg='separation surface minus its height %s' % tag)
        mon.check((after['hsep'] >= -1e-9).all(), 'above-bed', lambda: 'height of the separation surface %g %s' % (after['hsep'].min(), tag))
        if nb == 0:
            mon.check((abs(after['hsep']) <= (1e-4 if p['zsep_y_filter'] else 1e-9)).all(), 'no-lee', 'separation without a steep lee slope %s' % tag)
    mon.sig(c['mode'], c['shape'], int(ud % 360 // 30), 'rot' if c['rot'] else '', 'sep' if nb else '', np.size(z0) > 1, 'square' if p['dx'] == p['dy'] else '',
            'deep' if (hs > .1).any() else '', 'still' if (fx == 0).any() else '')
    mon.ev('cells', X.size)


def run(c, mon):
    m = make(c)
    two = c['ny'] > 0
    names = ('x', 'y', 'zb', 'taus', 'taun', 'taus0', 'taun0', 'uw', 'udir', 'hsep', 'zsep')
    seen = []
    if two:
        ws = m.s['shear']
        f = getattr(ws, 'separation', None)
        if f is not None:
            def sep(*a, **kw):
                seen.append(ws.cgrid['z'].copy())
                return f(*a, **kw)
            ws.separation = sep
    with trace.Tracer({'shear': names}) as tr:
        for i in range(c['steps']):
            if i and c['grow']:
                # the bed changes during a run
                m.s['zb'] *= 1.15
            z = m.s['zb'].copy()
            m.update()
            mon.ev('steps')
            log = tr.take()
            tag = 'step %d' % i
            if m.s['uw'].sum() == 0:
                continue
            if two:
                if log:
                    field(c, m, mon, log[-1][1], log[-1][2], seen, tag)
            elif log:
                # the surface over the bed as the wind met it
                s1 = dict(m.s)
                s1.update(log[-1][2])

                class V(object):
                    s, p = s1, m.p
                line(c, V, mon, tag)
                last = log[-1][2]
    if two or m.s['uw'].sum() == 0 or not log:
        return
    # mirror image of the transect under the mirrored wind; another wind speed
    m.finalize()

    def flip(cfg, arr):
        arr['bed'] = arr['bed'][:, ::-1]
        arr['wind'] = arr['wind'] * np.array([1., 1., -1.]) + np.array([0., 0., 360.])

    def fast(cfg, arr):
        arr['wind'] = arr['wind'] * np.array([1., 1.7, 1.])
    c1 = dict(c, steps=1)
    a = one(c1, None)
    for nm, mut in (('mirror', flip), ('speed', fast)):
        b = one(c1, mut)
        if a is None or b is None:
            continue
        b = b[:, ::-1] if nm == 'mirror' else b
        mon.close(b, a, 'twin-' + nm, rtol=1e-7, atol=1e-7, msg='height of the separation surface in the twin run (%s)' % nm)


def one(c, mut):
    m = make(c, mut)
    with trace.Tracer({'shear': ('hsep',)}) as tr:
        m.update()
        log = tr.take()
    m.finalize()
    return log[-1][2]['hsep'] if log else None


warmup = gen.warmup
