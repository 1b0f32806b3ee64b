"""Options that do not exist are refused, those that exist are not."""
import contextlib
import os
import random
import string

import numpy as np
from harness import gen

ID = 'C30'
N_QUICK, N_THOROUGH = 900, 12000
RULE = ('Random models in which one option gets a name that does not exist (arbitrary words, misspelt or decorated real names), one that '
        'is not implemented for the solver in use, every name that does exist, or in which one input file is missing, empty, cut or '
        'of the wrong shape. Watched: exception, its type, what it names, steps and files produced before it.')
ASSUMPTIONS = ['an option is only looked at while the process it belongs to is active and the wind blows']

# option -> (names that exist, settings that activate it)
OPTIONS = {
    'scheme': (('euler_forward', 'euler_backward', 'crank_nicolson'), {}),
    'solver': (('trunk', 'pieter', 'steadystate', 'steadystatepieter'), {}),
    'method_transport': (('bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen'), {}),
    'method_grainspeed': (('windspeed', 'duran', 'constant'), {}),
    'method_roughness': (('constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive',
                          'vanrijn_strypsteen'), {}),
    'wind_convention': (('nautical', 'cartesian'), {}),
    'method_moist_threshold': (('belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'gregory_darwish', 'shao', 'cornelis', 'dong_2002',
                                'dong_2007'), dict(process_moist=True, th_moisture=True, process_tide=True)),
    'method_moist_process': (('infiltration', 'surf_moisture'), dict(process_moist=True, process_tide=True)),
    'boundary_gw': (('no_flow', 'static'), dict(process_moist=True, process_groundwater=True, process_tide=True)),
    'boundary_offshore': ((), {}),
    'boundary_onshore': ((), {}),
    'boundary_lateral': ((), {}),
}
BOUNDARY = {
    ('trunk', 'boundary_offshore'): (('flux', 'constant', 'uniform', 'gradient', 'noflux'), ('circular',)),
    ('trunk', 'boundary_onshore'): (('flux', 'constant', 'uniform', 'gradient', 'noflux'), ('circular',)),
    ('trunk', 'boundary_lateral'): (('circular', 'constant'), ('uniform', 'gradient')),
    ('steadystate', 'boundary_offshore'): (('flux', 'constant', 'uniform', 'gradient'), ('circular',)),
    ('steadystate', 'boundary_onshore'): (('flux', 'constant', 'uniform', 'gradient'), ('circular',)),
    ('steadystate', 'boundary_lateral'): (('circular', 'constant'), ('uniform', 'gradient')),
    ('pieter', 'boundary_offshore'): (('flux', 'constant', 'gradient'), ('circular',)),
    ('pieter', 'boundary_onshore'): (('flux', 'constant', 'gradient'), ('circular',)),
    ('pieter', 'boundary_lateral'): (('flux', 'circular', 'constant', 'gradient'), ()),
}
LOWER = ('solver', 'method_transport', 'method_moist_threshold', 'method_moist_process', 'boundary_gw')    # case does not matter
FILES = ('no configuration', 'no grid', 'no bed', 'no y', 'wind', 'tide', 'meteo', 'layers', 'grain file', 'callback', 'restart', 'groundwater',
         'bmi')


def word(rng):
    return ''.join(rng.choice(string.ascii_lowercase + '_') for _ in range(rng.randint(1, 12)))


def case(rng, k):
    c = gen.base_case(rng, nl=rng.randint(1, 3), nf=rng.randint(1, 3))
    c['nx'] = min(c['nx'], 14)
    c['ny'] = min(c['ny'], 4)
    c['wind'] = gen.pick(rng, 'const', 'ramp', 'turn')
    c['umax'] = round(rng.uniform(10, 20), 2)
    c['dt'] = gen.pick(rng, 10., 60.)
    c['profile'] = gen.pick(rng, 'flat', 'bumps', 'dune')
    c['zoff'] = 1.
    c['steps'] = 3
    c['kind'] = ('unknown', 'known', 'unknown', 'files', 'unsupported')[k % 5]
    c['series'] = dict(tide=[.2, .3, 3.], meteo=True) if rng.random() < .5 else {}
    solver = gen.pick(rng, 'trunk', 'pieter', 'steadystate')
    opt = sorted(OPTIONS)[(k // 5) % len(OPTIONS)]
    if c['kind'] == 'unsupported':
        opt = gen.pick(rng, 'boundary_offshore', 'boundary_onshore', 'boundary_lateral')
        if solver == 'pieter' and opt == 'boundary_lateral':
            opt = 'boundary_onshore'
    if opt == 'method_grainspeed':
        c['cfg']['process_threshold'] = True
    names, cfg = OPTIONS[opt]
    names, cfg = tuple(names), dict(cfg)
    cfg['solver'] = solver
    unsup = ()
    if opt.startswith('boundary_') and opt != 'boundary_gw':
        names, unsup = BOUNDARY[solver, opt]
    if cfg.get('process_tide'):
        c['series'] = dict(tide=[.2, .3, 3.], meteo=True)
        c['profile'] = 'beach'
    if c['kind'] == 'unsupported':
        name = gen.pick(rng, *unsup)
    elif c['kind'] == 'known':
        name = names[rng.randrange(len(names))]
        if opt in LOWER:
            name = gen.pick(rng, name, name, name.upper(), name.capitalize())
    else:
        base = rng.choice(names)
        name = gen.pick(rng, word(rng), base + rng.choice('sx_1'), base[:-1], rng.choice('ax_') + base, base[1:])
        if name.lower() in [n.lower() for n in names + unsup] or not name or name in ('T', 'F', 'None') or name.lower() == 'circular':
            name = 'nosuchoption'
    c['opt'], c['name_'] = opt, name
    cfg[opt] = name
    if opt == 'method_moist_process' and name.lower() == 'surf_moisture':
        cfg['process_groundwater'] = True
    if opt == 'method_roughness' and name == 'vanrijn_strypsteen' or opt == 'method_transport' and name.lower() == 'bagnold_gs':
        c['skip'] = True                              # known not to work at all on most grids
    c['cfg'].update(cfg)
    if opt == 'boundary_lateral':
        c['ny'] = max(c['ny'], 2)
    c['file'] = FILES[(k // 5) % len(FILES)]
    c['pick'] = rng.randrange(10 ** 6)
    return c


def attempt(fn):
    try:
        fn()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        return e
    return None


def run(c, mon):
    if c['kind'] == 'files':
        return files(c, mon)
    if c.get('skip'):
        mon.note('left out')
        return
    state = {}

    def go():
        state['m'] = m = gen.make_model(c)
        state['z'] = m.s['zb'].copy()
        for _ in range(3):
            m.update()
            state['steps'] = state.get('steps', 0) + 1
    e = attempt(go)
    what = '%s = %s (%s)' % (c['opt'], c['name_'], c['cfg']['solver'])
    mon.ev('configurations')
    mon.sig(c['kind'], c['opt'], c['name_'] if c['kind'] != 'unknown' else '', type(e).__name__)
    if c['kind'] == 'known':
        if e is not None:
            raise e
        mon.check(state['steps'] == 3, 'accepted', lambda: '%s: no steps' % what)
        return
    mon.check(e is not None, 'refused', lambda: '%s is taken without complaint' % what)
    if e is None:
        return
    typ = NotImplementedError if c['kind'] == 'unsupported' else ValueError
    mon.check(isinstance(e, typ), 'error-type', lambda: '%s ends with %s: %s' % (what, type(e).__name__, e))
    if c['kind'] == 'unknown':
        mon.check(c['name_'] in str(e), 'error-names', lambda: '%s: message does not name it: %s' % (what, e))
    mon.check(state.get('steps', 0) <= 1, 'at-once', lambda: '%s is refused only after %d steps' % (what, state['steps']))


def files(c, mon):
    from aeolis.model import AeoLiS, AeoLiSRunner
    r = random.Random(c['pick'])
    kind = c['file']
    c = dict(c, cfg={k: v for k, v in c['cfg'].items() if k == 'solver'}, series={})
    if kind in ('tide', 'meteo', 'groundwater'):
        c['series'] = dict(tide=[.2, .3, 3.], meteo=True)
    if kind in ('groundwater', 'meteo'):
        c['cfg'] = dict(process_moist=True, process_tide=True, method_moist_process='surf_moisture', process_groundwater=True)
    if kind == 'no y' and not c['ny']:
        c['ny'] = 2
    gen.write_case(c)
    name = 'aeolis.txt'
    with open(name) as fp:
        lines = fp.read().split('\n')

    def drop(*keys):
        return [l for l in lines if l.split('=')[0].strip() not in keys]

    def put(**kw):
        return drop(*kw) + ['%s = %s' % kv for kv in sorted(kw.items())]
    typ, make = ValueError, None
    if kind == 'no configuration':
        if r.random() < .5:
            os.remove(name)
        else:
            name = 'other.txt'
        typ = IOError
    elif kind in ('no grid', 'no bed', 'no y'):
        key = {'no grid': 'xgrid_file', 'no bed': 'bed_file', 'no y': 'ygrid_file'}[kind]
        lines = put(**{key: 'missing.txt'}) if r.random() < .5 else drop(key)
        if r.random() < .3:
            lines = put(**{key: ''})
        # where no grid is given the dimensions cannot be derived: any exception will do
        typ = (ValueError, AttributeError, TypeError, KeyError, IndexError)
    elif kind in ('wind', 'tide', 'meteo'):
        n = {'wind': 3, 'tide': 2, 'meteo': 6}[kind]
        a = np.abs(np.random.RandomState(c['pick']).normal(size=(6, n)))
        a[:, 0] = np.arange(6) * 1000.
        how = r.choice(['columns', 'row'])
        a = a[:, :r.randint(1, n - 1)] if how == 'columns' else a[:1]
        if a.shape[1] == 1:
            a = a[:, 0]
        np.savetxt('cut.txt', a)
        lines = put(**{kind + '_file': 'cut.txt'})
    elif kind == 'layers':
        nl, nf = r.randint(2, 5), r.randint(2, 4)
        rows = nl + r.choice([-1, 1, 2]) if nl > 2 else nl + r.choice([1, 2])
        np.savetxt('dist.txt', np.ones((rows, nf)) / nf)
        lines = put(nlayers=nl, grain_size=' '.join('%.6f' % (1e-4 * (i + 1)) for i in range(nf)), grain_dist='dist.txt')
        lines = [l for l in lines if not l.startswith('bedcomp')]
    elif kind == 'grain file':
        lines = [l for l in put(grain_dist='missing_dist.txt') if not l.startswith('bedcomp')]
    if kind in ('callback', 'restart', 'bmi', 'groundwater', 'no configuration'):
        pass
    else:
        with open(name, 'w') as fp:
            fp.write('\n'.join(lines) + '\n')
    have = set(os.listdir('.'))
    state = {}
    if kind == 'callback':
        with open('hook.py', 'w') as fp:
            fp.write('def hook(model):\n    pass\nNUMBER = 3\n')
        cb = r.choice(['nofile.py:hook', 'hook:hook:hook', 'hook.txt:hook'])
        e = attempt(lambda: AeoLiSRunner(name).run(callback=cb))
        typ = Exception
    elif kind == 'restart':
        e = attempt(lambda: AeoLiSRunner(name).run(restartfile='nothing.pkl'))
        typ = IOError
    elif kind == 'bmi':
        m = AeoLiS(name)
        m.initialize()
        z = {k: v.copy() for k, v in m.s.items() if isinstance(v, np.ndarray)}
        call = r.choice(['inq_compound', 'inq_compound_field', 'set_var_slice'])
        args = {'inq_compound': (), 'inq_compound_field': (), 'set_var_slice': ('zb', [0], [1], np.zeros(1))}[call]
        e = attempt(lambda: getattr(m, call)(*args))
        typ = (NotImplementedError, TypeError)
        bad = [k for k in z if not np.array_equal(z[k], m.s[k], equal_nan=z[k].dtype.kind == 'f')]
        mon.check(not bad, 'refused-state', lambda: '%s changes %s' % (call, bad))
    elif kind == 'groundwater':
        m = AeoLiS(name)
        m.initialize()
        m.p['process_groundwater'] = None
        e = attempt(m.update)
    elif kind == 'no configuration' and r.random() < .5:
        e = attempt(lambda: AeoLiSRunner(name).run())
    else:
        def go():
            m = AeoLiS(name)
            m.initialize()
            state['ready'] = True
            m.update()
        e = attempt(go)
    mon.ev('configurations')
    mon.sig('files', kind, type(e).__name__)
    mon.check(e is not None, 'refused', lambda: '%s: taken without complaint' % kind)
    if e is None:
        return
    mon.check(isinstance(e, typ), 'error-type', lambda: '%s ends with %s: %s' % (kind, type(e).__name__, e))
    if kind not in ('groundwater', 'bmi', 'callback'):
        mon.check(not state.get('ready'), 'at-once', lambda: '%s: model was initialised first' % kind)
    new = set(os.listdir('.')) - have - {'hook.py', 'aeolis.log', '__pycache__'}
    out = [f for f in new if f.endswith('.nc') and kind not in ('restart', 'callback')]
    mon.check(not out, 'no-output', lambda: '%s: refused but left %r' % (kind, out))


warmup = gen.warmup
