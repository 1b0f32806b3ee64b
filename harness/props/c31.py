"""Numerical helpers shared by all processes."""
import copy
import os

import numpy as np
from harness import gen

ID = 'C31'
N_QUICK, N_THOROUGH = 420, 9000
RULE = ('Contracts of the shared helpers (circular interpolation of records, normalisation, masks, rotation, grain size statistics, '
        'clean-up of negatives, backup of files) checked on every call that running models make, and on random arguments: any shape, '
        'zeros, ties, single values, times far outside records, all angles.')
ASSUMPTIONS = ['records repeat one second after their end (documented time base of the package)']

HOOKED = ('interp_circular', 'interp_array', 'normalize', 'apply_mask', 'rotate', 'prevent_tiny_negatives', 'calc_grain_size',
          'calc_mean_grain_size')


def case(rng, k):
    kind = ('run', 'interp', 'normalize', 'mask', 'rotate', 'negatives', 'grain', 'backup')[k % 8]
    c = dict(kind=kind, seed=rng.randrange(2 ** 31), rot=0.)
    if kind == 'run':
        c = gen.base_case(rng, nf=rng.randint(1, 4), nl=rng.randint(1, 3))
        c['kind'] = kind
        c['nx'] = min(c['nx'], 12)
        c['ny'] = min(c['ny'], 4)
        c['profile'] = gen.pick(rng, 'beach', 'dune', 'bumps')
        c['dt'] = gen.pick(rng, 60., 600.)
        c['steps'] = rng.randint(2, 5)
        c['umax'] = round(rng.uniform(8, 18), 2)
        c['series'] = dict(tide=[.3, .6, 3.], wave=[.8, 6.], meteo=True)
        for m in ('tide_mask', 'wave_mask', 'runup_mask'):
            if rng.random() < .4:
                c['series'][m] = [.5, .1]
        c['cfg'] = dict(process_tide=True, process_wave=True, process_runup=True, process_mixtoplayer=True, process_moist=True,
                        th_moisture=True, method_roughness=gen.pick(rng, 'constant', 'mean_grainsize_adaptive', 'median_grainsize_adaptive'),
                        solver=gen.pick(rng, 'trunk', 'steadystate', 'pieter'))
    return c


# -- contracts: (arguments before, result) -> list of (ok, message)

def ref_circular(x, xp, fp):
    lo, hi = float(np.min(xp)), float(np.max(xp))
    x = np.asarray(x, float)
    xx = lo + (x - lo) % (hi - lo + 1.)
    return np.interp(xx, xp, fp)


def k_interp_circular(mon, tag, a, kw, y):
    if kw or len(a) < 3:
        return
    want = ref_circular(*a[:3])
    if np.diff(a[1]).min() < 1e-9 if len(a[1]) > 1 else False:
        return
    jump = abs(np.diff(a[2]) / np.diff(a[1])).max() * 1e-6 if len(a[1]) > 1 else 0.
    # just at the seam rounding decides between end and start of the record
    lo, hi = float(np.min(a[1])), float(np.max(a[1]))
    s = (np.asarray(a[0], float) - lo) % (hi - lo + 1.)
    seam = (s < 1e-6) | (s > hi - lo + 1. - 1e-6)
    both = (abs(np.asarray(y) - a[2][0]) < 1e-9) | (abs(np.asarray(y) - a[2][-1]) < 1e-9)
    ok = (abs(np.asarray(y) - want) <= 1e-9 * (1 + abs(want)) + jump) | (seam & both)
    mon.check(np.all(ok), 'circular', lambda: '%s: record at %r gives %r, expected %r' % (tag, a[0], y, want))


def k_interp_array(mon, tag, a, kw, y):
    if len(a) < 3 or set(kw) - {'circular'}:
        return
    x, xp, fp = a[:3]
    circ = kw.get('circular', a[3] if len(a) > 3 else False)
    mon.check(len(y) == fp.shape[1], 'records', lambda: '%s: %d values for %d records' % (tag, len(y), fp.shape[1]))
    for i in range(fp.shape[1]):
        if circ:
            k_interp_circular(mon, tag, (x, xp, fp[:, i]), {}, y[i])
        else:
            mon.close(y[i], np.interp(x, xp, fp[:, i]), 'records', rtol=1e-9, atol=1e-12, msg=tag)


def k_normalize(mon, tag, a, kw, y):
    x = np.atleast_1d(np.asarray(a[0], float)) if np.ndim(a[0]) == 0 else np.asarray(a[0], float)
    rest = dict(zip(('ref', 'axis', 'fill'), a[1:]), **kw)
    axis, fill, ref = rest.get('axis', 0), rest.get('fill', 0.), rest.get('ref')
    mon.check(y.shape == x.shape, 'normalize', lambda: '%s: shape %r of %r' % (tag, y.shape, x.shape))
    if ref is None:
        tot = x.sum(axis=axis, keepdims=True)
        tot = np.broadcast_to(tot, x.shape)
        sums = np.broadcast_to(y.sum(axis=axis, keepdims=True), x.shape)
        scale = abs(x).sum(axis=axis, keepdims=True)
        fine = np.broadcast_to(scale, x.shape) < 1e6 * abs(tot)
        mon.close(sums[(tot != 0) & fine], 1., 'normalize', rtol=1e-6, atol=1e-6, msg='%s: sum' % tag)
    else:
        tot = np.broadcast_to(np.asarray(ref, float), x.shape)
    nz = tot != 0
    mon.close(y[nz] * tot[nz], x[nz], 'normalize', rtol=1e-9, atol=1e-12 * (1 + abs(x).max() if x.size else 1), msg='%s: proportions' % tag)
    mon.check(np.all(y[~nz] == fill), 'normalize', lambda: '%s: nothing to normalise gives %r, fill value %r' % (tag, y[~nz][:4], fill))


def k_apply_mask(mon, tag, a, kw, y):
    arr, mask = np.asarray(a[0], float), np.asarray(a[1])
    m = mask.reshape(mask.shape + (1,) * (arr.ndim - mask.ndim))
    mon.close(y, arr * np.real(m) + np.imag(m), 'mask', rtol=1e-12, atol=1e-12, msg=tag)


def k_rotate(mon, tag, a, kw, y):
    x, yy, alpha = np.asarray(a[0], float), np.asarray(a[1], float), a[2]
    o = kw.get('origin', a[3] if len(a) > 3 else (0, 0))
    z = (x - o[0]) + 1j * (yy - o[1])
    w = z * np.exp(-1j * np.deg2rad(alpha))
    size = 1e-9 * (1 + abs(z).max() + abs(o[0]) + abs(o[1])) if z.size else 1.
    mon.close(y[0], w.real + o[0], 'rotate', rtol=0, atol=size, msg='%s by %r about %r' % (tag, alpha, o))
    mon.close(y[1], w.imag + o[1], 'rotate', rtol=0, atol=size, msg='%s by %r about %r' % (tag, alpha, o))


def k_prevent_tiny_negatives(mon, tag, a, kw, y):
    x = np.asarray(a[0], float)
    rest = dict(zip(('max_error', 'replacement'), a[1:]), **kw)
    e, r = rest.get('max_error', 1e-10), rest.get('replacement', 0.)
    want = np.where((x < 0) & (x > -e), r, x)
    mon.check(np.array_equal(want, y, equal_nan=True), 'negatives', lambda: '%s: %r' % (tag, y[want != y][:4]))


def grain(p, mass, q):
    d = np.concatenate([[0.], np.atleast_1d(p['grain_size'])])
    out = np.zeros(mass.shape[:2])
    for i in range(mass.shape[0]):
        for j in range(mass.shape[1]):
            c = np.concatenate([[0.], np.cumsum(mass[i, j])])
            c = 100. * c / c[-1]
            out[i, j] = np.interp(q, c, d)
    return out


def k_calc_grain_size(mon, tag, a, kw, y):
    p, s, q = a[:3]
    m = s['mass'][:, :, 0, :]
    if not (m > 1e-9 * m.sum(-1, keepdims=True)).all() or not 0 <= q <= 100:
        return
    mon.close(y, grain(p, m, q), 'grain-size', rtol=1e-6, atol=1e-12, msg='%s: D%g' % (tag, q))


def k_calc_mean_grain_size(mon, tag, a, kw, y):
    p, s = a[:2]
    m = s['mass'][:, :, 0, :]
    if not (m.sum(-1) > 0).all():
        return
    want = (m * p['grain_size']).sum(-1) / m.sum(-1)
    mon.close(y, want, 'grain-size', rtol=1e-9, atol=1e-15, msg='%s: mean' % tag)


def slim(name, a):
    if name.startswith('calc_'):
        return ({'grain_size': np.array(a[0]['grain_size'])}, {'mass': a[1]['mass'].copy()}) + tuple(a[2:])
    return copy.deepcopy(a)


class Hook:
    """Replaces the helpers wherever they have been imported by wrappers that check their contracts."""

    def __init__(self, mon):
        self.mon, self.undo = mon, []

    def __enter__(self):
        import sys
        import aeolis.utils
        for n in HOOKED:
            f = getattr(aeolis.utils, n, None)
            if f is None:
                self.mon.note('helper %s not there' % n)
                continue
            w = self.wrap(n, f)
            for k, m in list(sys.modules.items()):
                if k.split('.')[0] == 'aeolis' and m is not None and getattr(m, n, None) is f:
                    self.undo.append((m, n, f))
                    setattr(m, n, w)
        return self

    def wrap(self, n, f):
        def g(*a, **kw):
            before = slim(n, a)
            y = f(*a, **kw)
            self.mon.ev(n)
            globals()['k_' + n](self.mon, 'call of %s in a run' % n, before, kw, y)
            return y
        return g

    def __exit__(self, *e):
        for m, n, f in self.undo:
            setattr(m, n, f)


def run(c, mon):
    import aeolis.utils as u
    kind = c['kind']
    if kind == 'run':
        import aeolis.model                                             # noqa: F401
        with Hook(mon):
            m = gen.make_model(c)
            for _ in range(c['steps']):
                m.update()
        mon.sig('run', c['nf'], c['cfg']['method_roughness'], c['cfg']['solver'], *sorted(c['series']))
        return
    r = np.random.RandomState(c['seed'])
    need = {'interp': ('interp_circular', 'interp_array'), 'normalize': ('normalize',), 'mask': ('apply_mask',), 'rotate': ('rotate',),
            'negatives': ('prevent_tiny_negatives',), 'grain': ('calc_grain_size', 'calc_mean_grain_size'), 'backup': ()}[kind]
    if any(not hasattr(u, n) for n in need):
        mon.note('helper not there')
        return
    globals()['d_' + kind](c, r, mon, u)
    mon.ev('calls')


def call(mon, u, n, *a, **kw):
    before = slim(n, a)
    y = getattr(u, n)(*a, **kw)
    globals()['k_' + n](mon, n, before, kw, y)
    mon.ev(n)
    return y


def d_interp(c, r, mon, u):
    n = r.randint(2, 9)
    t0 = r.choice([0., 0., 500., -100.])
    xp = t0 + np.concatenate([[0.], np.cumsum(r.choice([1., 10., 600., 3600.], n - 1))])
    fp = r.normal(size=(n, 3))
    p = xp[-1] - xp[0] + 1.
    for x in [xp[0], xp[-1], r.uniform(xp[0], xp[-1]), xp[r.randint(n)], xp[-1] + r.uniform(0, 3 * p), xp[-1] + .5, xp[0] + p * r.randint(1, 50),
              xp[0] - r.uniform(0, 2 * p), float(10 ** r.uniform(0, 8))]:
        y = call(mon, u, 'interp_circular', float(x), xp, fp[:, 0])
        if xp[0] <= x <= xp[-1]:
            mon.close(y, np.interp(x, xp, fp[:, 0]), 'record', rtol=1e-9, atol=1e-6, msg='inside the record at %r' % x)
        mon.check(fp[:, 0].min() - 1e-9 <= y <= fp[:, 0].max() + 1e-9, 'circular', lambda: 'beyond the values of the record: %r' % y)
        call(mon, u, 'interp_array', float(x), xp, fp, circular=True)
        call(mon, u, 'interp_array', float(x), xp, fp)
    x = r.uniform(xp[0], xp[-1] + 2 * p, 20)
    call(mon, u, 'interp_circular', x, xp, fp[:, 1])
    mon.sig('interp', n, t0)


def d_normalize(c, r, mon, u):
    shape = tuple(r.randint(1, 6, r.randint(1, 5)))
    x = r.uniform(0, 5, shape) * (r.uniform(size=shape) < r.choice([1., .7, .2]))
    if r.uniform() < .3:
        x = x * 10. ** r.uniform(-12, 6)
    ax = r.randint(-len(shape), len(shape))
    keep = x.copy()
    fill = r.choice([0., 1., -1.])
    call(mon, u, 'normalize', x, axis=ax, fill=fill)
    call(mon, u, 'normalize', x)
    call(mon, u, 'normalize', x, ref=r.uniform(0, 2, shape) * (r.uniform(size=shape) < .8), axis=ax)
    call(mon, u, 'normalize', float(r.uniform(.1, 3)))
    mon.check(np.array_equal(x, keep), 'normalize', 'argument changed')
    mon.sig('normalize', len(shape), ax, bool((x == 0).any()))


def d_mask(c, r, mon, u):
    shape = tuple(r.randint(1, 6, r.randint(2, 5)))
    nd = r.randint(1, len(shape) + 1)
    m = r.uniform(-1, 2, shape[:nd]) + 1j * r.normal(size=shape[:nd])
    if r.uniform() < .3:
        m = np.real(m)
    x = r.normal(size=shape)
    keep = m.copy()
    call(mon, u, 'apply_mask', x.copy(), m)
    mon.check(np.array_equal(m, keep), 'mask', 'mask changed')
    mon.sig('mask', len(shape), nd, np.iscomplexobj(m))


def d_rotate(c, r, mon, u):
    shape = tuple(r.randint(1, 8, 2))
    x, y = r.normal(size=shape) * 100, r.normal(size=shape) * 100
    o = (0, 0) if r.uniform() < .3 else tuple(r.normal(size=2) * 300)
    al = float(r.choice([0., 90., -90., 180., 360., r.uniform(-720, 720)]))
    a = call(mon, u, 'rotate', x, y, al, origin=o)
    b = call(mon, u, 'rotate', a[0], a[1], -al, origin=o)
    mon.close(b[0], x, 'rotate', rtol=0, atol=1e-8, msg='turned back by %r' % al)
    mon.close(b[1], y, 'rotate', rtol=0, atol=1e-8, msg='turned back by %r' % al)
    mon.sig('rotate', round(al / 30), o == (0, 0))


def d_negatives(c, r, mon, u):
    x = r.normal(size=tuple(r.randint(1, 8, 3))) * 10. ** r.uniform(-14, 1, 1)
    x[r.uniform(size=x.shape) < .3] *= 1e-10
    call(mon, u, 'prevent_tiny_negatives', x.copy())
    call(mon, u, 'prevent_tiny_negatives', x.copy(), max_error=float(10. ** r.uniform(-12, 0)))
    call(mon, u, 'prevent_tiny_negatives', x.copy(), max_error=1., replacement=float(r.normal()))
    mon.sig('negatives', int(np.log10(abs(x).max())))


def d_grain(c, r, mon, u):
    ny, nx, nl, nf = r.randint(1, 4), r.randint(1, 6), r.randint(1, 4), r.randint(1, 7)
    p = {'grain_size': np.sort(r.uniform(1e-4, 2e-3, nf))}
    s = {'mass': r.uniform(.01, 3., (ny, nx, nl, nf))}
    keep = s['mass'].copy()
    qs = sorted([0., 100., 50., 90., 10., float(r.uniform(0, 100))])
    last = None
    for q in qs:
        y = call(mon, u, 'calc_grain_size', p, s, q)
        mon.check(last is None or (y >= last - 1e-12).all(), 'grain-size', lambda: 'D%g smaller than a lower percentile' % q)
        last = y
    mon.close(last, p['grain_size'][-1], 'grain-size', rtol=1e-9, atol=1e-15, msg='D100')
    y = call(mon, u, 'calc_mean_grain_size', p, s)
    mon.check((y >= p['grain_size'][0] - 1e-12).all() and (y <= p['grain_size'][-1] + 1e-12).all(), 'grain-size', 'mean outside the classes')
    mon.check(np.array_equal(s['mass'], keep), 'grain-size', 'mass changed')
    mon.sig('grain', nf, nl)


def d_backup(c, r, mon, u):
    """Files that would be overwritten are kept, every generation of them."""
    from aeolis import inout
    n = r.randint(1, 6)
    fn = r.choice(['a.txt', 'aeolis.txt', 'b'])
    inout.backup(fn)
    mon.check(os.listdir('.') == [], 'backup', 'backup of a file that is not there')
    gens = []
    for i in range(n):
        data = r.bytes(r.randint(0, 60))
        with open(fn, 'wb') as fp:
            fp.write(data)
        gens.append(data)
        inout.backup(fn)
        mon.check(open(fn, 'rb').read() == data, 'backup', 'file changed by its backup')
    have = sorted(f for f in os.listdir('.') if f != fn)
    mon.check(len(have) == n, 'backup', lambda: '%d backups of %d generations: %r' % (len(have), n, have))
    got = [open(f, 'rb').read() for f in have]
    mon.check(got == gens, 'backup', lambda: 'generations are not kept in order: %r' % have)
    mon.sig('backup', n)


warmup = gen.warmup
