"""The Basic Model Interface: exchange of variables, grids that keep their shape, immutable variables."""
import pickle

import numpy as np
from harness import gen

ID = 'C17'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random models with random sets of processes driven through the interface: inquiries about every variable in every state, '
        'random values set and read back, arrays shared between caller and model altered by either, states moved to a fresh model, '
        'beds raised through the interface, variables made immutable; names, shapes and types observed after every step.')
ASSUMPTIONS = ['arrays set have the shape of the variable']
MUT = ('zb', 'ustar', 'ustars', 'uth', 'Cu', 'Ct', 'mass', 'pickup', 'moist', 'zs', 'SWL', 'Hs', 'rhoveg', 'gw', 'udir', 'uw', 'w', 'zne',
       'qs', 'tau', 'taus', 'theta_stat', 'dzb', 'hveg')


def case(rng, k):
    mode = ('inquire', 'exchange', 'transfer', 'raise', 'immutable')[k % 5]
    c = gen.base_case(rng)
    c['mode'] = mode
    c['steps'] = rng.randint(2, 5)
    c['dt'] = gen.pick(rng, 1., 10., 60., 600.)
    cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_backward', 'euler_forward'), accfac=gen.pick(rng, 1., 1., 10.))
    c['series'] = {}
    if rng.random() < .4:
        cfg['process_avalanche'] = True
        c['dx'] = c['dy'] = 2.
    if mode != 'raise':
        if rng.random() < .4:
            cfg['process_tide'] = True
            c['series']['tide'] = [round(rng.uniform(-1, 1), 2), .8, 2.]
            if rng.random() < .6:
                cfg['process_wave'] = cfg['process_runup'] = True
                c['series']['wave'] = [round(rng.uniform(.2, 2), 2), round(rng.uniform(3, 10), 1)]
            if rng.random() < .4:
                cfg['process_moist'] = cfg['th_moisture'] = True
            if rng.random() < .3:
                cfg['process_wet_bed_reset'] = True
            if rng.random() < .3:
                cfg['process_mixtoplayer'] = True
        if rng.random() < .3:
            c['series']['veg'] = .6
            cfg.update(V_ver=2., germinate=.2, lateral=.2, veg_min_elevation=-5., veggrowth_type=gen.pick(rng, 'orig', 'duranmoore14'))
    if rng.random() < .3 and not c['ny']:
        c['series']['fence'] = .8
    if rng.random() < .3:
        c['series']['ne'] = .3
    if rng.random() < .35:
        cfg['process_shear'] = True
        cfg.update(dx=max(c['dx'], 1.), dy=max(c['dx'], 1.))
        if rng.random() < .5:
            cfg['process_separation'] = True
    if mode == 'raise':
        c['series'].pop('fence', None)  # the reach of a fence ends abruptly: rounding decides
        cfg['method_grainspeed'] = gen.pick(rng, 'windspeed', 'duran', 'constant')
        if not c['ny']:
            cfg['process_separation'] = False
    c['cfg'] = cfg
    c['wind'] = gen.pick(rng, 'const', 'gust', 'turn', 'ramp')
    return c


def make(c, **over):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    cfg.update(over)
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def shapes(m, c, mon, tag):
    size = dict(ny=c['ny'] + 1, nx=c['nx'] + 1, nlayers=c['nl'], nfractions=c['nf'])
    bad = []
    for v, dims in m.dimensions().items():
        want = tuple(size[d] for d in dims)
        a = m.get_var(v)
        if not isinstance(a, np.ndarray) or a.shape != want or m.get_var_shape(v) != want or m.get_var_rank(v) != len(want):
            bad.append((v, getattr(a, 'shape', type(a).__name__), want))
    mon.check(not bad, 'shape', lambda: '%s has shape %s instead of %s %s' % (bad[0] + (tag,)))
    for v in ('zb', 'Ct', 'pickup', 'mass', 'uw', 'ustar'):
        mon.finite(m.get_var(v), 'finite', '%s %s' % (v, tag))
    mon.ev('grids', len(m.dimensions()))


def inquire(m, c, mon, tag):
    n = m.get_var_count()
    names = [m.get_var_name(i) for i in range(n)]
    mon.check(names == sorted(set(names)), 'names', lambda: 'names are not distinct and in alphabetical order %s' % tag)
    mon.check(set(m.dimensions()) <= set(names), 'names', lambda: 'variables %s cannot be found %s' % (set(m.dimensions()) - set(names), tag))
    mon.check(m.get_var_name(n) == -1 and m.get_var_name(n + 7) == -1, 'names', 'name beyond the last variable')
    for v in names:
        if isinstance(m.s[v], np.ndarray):
            mon.check(m.get_var_type(v) == 'double', 'type', lambda: 'type of %s is %r' % (v, m.get_var_type(v)))
    for f in (m.get_var_rank, m.get_var_shape, m.get_var_type):
        mon.check(f('no_such_grid') == -1, 'unknown', 'inquiry about an unknown grid')
    mon.check(m.get_var('no_such_grid') is None, 'unknown', 'value of an unknown variable')
    keys = set(m.s), set(m.p)
    m.set_var('no_such_grid', np.zeros(3))
    mon.check((set(m.s), set(m.p)) == keys, 'unknown', 'setting an unknown variable adds it')
    mon.check(m.get_start_time() == m.p['tstart'] and m.get_end_time() == m.p['tstop'] and m.get_current_time() == m.t, 'times', 'times of the model')
    for k in ('nx', 'ny', 'nlayers', 'rhog', 'scheme'):
        mon.check(m.get_var(k) == m.p[k], 'parameter', 'parameter %s' % k)


def run(c, mon):
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    np.random.seed(c['seed'] % (2 ** 31))
    m = make(c)
    globals()['do_' + c['mode']](c, m, r, mon)
    mon.sig(c['mode'], '2d' if c['ny'] else '1d', *sorted(k for k, v in c['cfg'].items() if v is True))


def do_inquire(c, m, r, mon):
    inquire(m, c, mon, 'initially')
    shapes(m, c, mon, 'initially')
    for i in range(c['steps']):
        m.update(float(c['dt']) * .5 if r.rand() < .3 else (-50. if r.rand() < .2 else -1))
        shapes(m, c, mon, 'after step %d' % i)
        inquire(m, c, mon, 'after step %d' % i)
    # acceleration: concentrations are reported unaccelerated
    for v in ('Ct', 'Cu'):
        mon.close(m.get_var(v) * m.p['accfac'], m.s[v], 'acceleration', rtol=1e-12, atol=0, msg=v)
    mon.finite(m.get_var('Ct'), 'finite', 'Ct')
    m.finalize()


def do_exchange(c, m, r, mon):
    for i in range(c['steps']):
        if i:
            m.update()
        names = sorted(m.dimensions())
        for v in r.permutation(names)[:25]:
            v = str(v)
            a = m.get_var(v)
            val = r.uniform(.1, 1., a.shape)
            other = {u: np.array(m.get_var(u), copy=True) for u in names if u != v}
            old = np.array(a, copy=True)
            if r.rand() < .5:
                m.set_var(v, val)
            else:
                j = [m.get_var_name(n) for n in range(m.get_var_count())].index(v)
                m.set_var_index(j, val)
            mon.close(m.get_var(v), val, 'set-get', rtol=1e-13, atol=0, msg='%s set through the interface' % v)
            bad = [u for u in other if not eq(m.get_var(u), other[u])]
            mon.check(not bad, 'set-only', lambda: 'setting %s changes %s' % (v, bad))
            keep = val.copy()
            val[...] = -77.
            mon.close(m.get_var(v), keep, 'detached', rtol=1e-13, atol=0, msg='%s after the caller altered its array' % v)
            m.set_var(v, old)
            mon.close(m.get_var(v), old, 'set-get', rtol=1e-13, atol=0, msg='%s set back' % v)
            mon.ev('exchanges')
        for k, v in (('tstop', 1e6), ('rhog', 2600.), ('T', .7)):
            m.set_var(k, v)
            mon.check(m.get_var(k) == v, 'set-parameter', 'parameter %s' % k)
        mon.check(m.get_end_time() == 1e6, 'set-parameter', 'end time')
    # arrays handed over stay the caller's
    given = {}
    for v in ('zb', 'mass', 'moist', 'rhoveg', 'zne', 'Ct'):
        given[v] = np.array(m.get_var(v), copy=True)
        if v == 'zb':
            given[v] = given[v] + r.uniform(0, 3., given[v].shape)
        m.set_var(v, given[v])
    keep = {v: a.copy() for v, a in given.items()}
    m.update()
    bad = [v for v in given if not eq(given[v], keep[v])]
    mon.check(not bad, 'caller-kept', lambda: 'array handed over as %s is altered by the model' % bad)


def do_transfer(c, m, r, mon):
    """A fresh model given the complete state of another continues like the other."""
    n = max(1, c['steps'] - 1)
    for i in range(n):
        m.update()
    m2 = make(c, tstart=m.t)
    mon.close(m2.get_current_time(), m.t, 'start-time', rtol=1e-9, atol=1e-11, msg='start time')
    m2.t = m.t
    for i in range(m.get_var_count()):
        v = m.get_var_name(i)
        a = m.get_var(v)
        if isinstance(a, np.ndarray):
            m2.set_var(v, a)
    names = sorted(m.dimensions())
    bad = [v for v in names if not np.allclose(m.get_var(v), m2.get_var(v), rtol=1e-13, atol=0, equal_nan=True)]
    mon.check(not bad, 'transfer', lambda: 'state not transferred: %s' % bad)
    for v in ('Ct', 'Cu'):
        m2.s[v] = m.s[v].copy()
    m2.dt = m.dt
    for i in range(2):
        for q in (m, m2):
            np.random.seed(c['seed'] % (2 ** 31) + i)
            q.update()
        mon.check(m.t == m2.t, 'transfer-time', lambda: 'clock %r, expected %r' % (m2.t, m.t))
        for v in names:
            mon.close(m2.get_var(v), m.get_var(v), 'transfer', rtol=1e-9, atol=1e-11, msg='%s of a model given the state of another' % v)
            mon.ev('transferred')


def do_raise(c, m, r, mon):
    """Without water or vegetation only differences of the bed level matter."""
    m2 = make(c)
    dz = round(r.uniform(-20, 20), 1)
    m2.set_var('zb', m2.get_var('zb') + dz)
    m2.set_var('zb0', m2.get_var('zb0') + dz)
    m2.set_var('zne', m2.get_var('zne') + dz)
    if m2.p['ne_file'] is not None:
        m2.set_var('ne_file', m2.get_var('ne_file') + dz)
    for i in range(c['steps']):
        m.update()
        m2.update()
        mon.close(m2.t, m.t, 'raised-time', rtol=1e-6, msg='clock of the raised model')
        tol = dict(rtol=1e-5, atol=1e-7)
        mon.close(m2.get_var('zb') - dz, m.get_var('zb'), 'raised', msg='bed raised by %g m' % dz, **tol)
        for v in ('Ct', 'Cu', 'ustar', 'uth', 'pickup'):
            mon.close(m2.get_var(v), m.get_var(v), 'raised', msg='%s over a bed raised by %g m' % (v, dz), **tol)
    mon.ev('raised')


def do_immutable(c, m, r, mon):
    names = [str(v) for v in r.permutation(MUT)[:r.randint(1, 4)]]
    m.update()
    for v in names:
        m.s.set_immutable(v)
    keep = {v: np.array(m.s[v], copy=True) for v in names}
    for i in range(c['steps']):
        try:
            m.update()
        except Exception as e:
            mon.fail('immutable-crash', 'immutable %s: %r' % (names, e))
            return
        for v in names:
            mon.check(eq(m.s[v], keep[v]) and eq(dict.__getitem__(m.s, v), keep[v]), 'immutable', lambda: 'immutable %s is overwritten in step %d' % (v, i))
        m.set_var(names[0], keep[names[0]] + 1.)
        mon.check(eq(m.s[names[0]], keep[names[0]]), 'immutable', 'immutable %s is set' % names[0])
        mon.sig('immutable', *sorted(names)[:2])
    # survives a copy through the restart format
    s2 = pickle.loads(pickle.dumps(m.s))
    s2[names[0]] = keep[names[0]] + 1.
    mon.check(eq(s2[names[0]], keep[names[0]]), 'immutable-pickle', 'immutable %s is mutable after restoring it' % names[0])
    free = [v for v in ('zb', 'moist', 'uth', 'zdry') if v not in names][0]
    s2[free] = keep[names[0]]
    mon.check(s2[free] is keep[names[0]], 'mutable', 'mutable %s cannot be set' % free)
    m.s.set_mutable(names[0])
    m.s[names[0]] = keep[names[0]] + 1.
    mon.check(eq(m.s[names[0]], keep[names[0]] + 1.), 'mutable', '%s cannot be set although made mutable again' % names[0])


warmup = gen.warmup
