"""Configuration files."""
import copy
import json
import os

import numpy as np
from harness import gen

ID = 'C16'
N_QUICK, N_THOROUGH = 500, 12000
RULE = ('Random configuration files (subsets and orders of parameters, spacing, comments, duplicates, numbers in every notation, '
        'flags, lists, names, absent values, real and complex data files) with the meaning known to the generator; random '
        'configurations written and read back; incomplete and malformed input; defaults compared before and after.')
ASSUMPTIONS = ['the table of default values in harness/props/defaults.json is the reference for parameters not given']

DEFAULTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defaults.json')))

FLAGS = sorted(k for k, v in DEFAULTS.items() if isinstance(v, bool))
NUMS = sorted(k for k, v in DEFAULTS.items() if isinstance(v, (int, float)) and not isinstance(v, bool))
NAMES = {'scheme': ('euler_forward', 'euler_backward', 'crank_nicolson'), 'solver': ('trunk', 'pieter', 'steadystate'),
         'boundary_onshore': ('gradient', 'flux', 'constant'), 'method_transport': ('bagnold', 'kawamura', 'lettau', 'dk'),
         'wind_convention': ('nautical', 'cartesian'), 'vegshear_type': ('okin', 'raupach'), 'callback': ('hook.py:callback', 'None.py:cb'),
         'refdate': ('2020-01-01', '1999-12-31')}
FILES = ('xgrid_file', 'ygrid_file', 'bed_file', 'wind_file', 'tide_file', 'wave_file', 'meteo_file', 'bedcomp_file', 'threshold_file',
         'fence_file', 'ne_file', 'veg_file')
MASKS = ('wave_mask', 'tide_mask', 'runup_mask', 'threshold_mask', 'gw_mask')


def case(rng, k):
    return dict(seed=rng.randrange(10 ** 9), mode=('read', 'read', 'roundtrip', 'roundtrip', 'reject', 'model')[k % 6])


def number(r):
    """A number and one of its notations."""
    import random
    kind = r.choice(['int', 'neg', 'float', 'tiny', 'huge', 'exp', 'short', 'negf'])
    if kind == 'int':
        v = r.randrange(0, 10 ** 6)
        return v, '%d' % v
    if kind == 'neg':
        v = -r.randrange(1, 10 ** 5)
        return v, '%d' % v
    if kind == 'float':
        v = round(r.uniform(0, 1000), r.randrange(1, 12))
        return v, np.format_float_positional(v, trim='0')
    if kind == 'negf':
        v = -round(r.uniform(0, 10), r.randrange(1, 15))
        return v, np.format_float_positional(v, trim='0')
    if kind == 'tiny':
        v = r.uniform(0, 1) * 10 ** -r.randrange(2, 12)
        return v, np.format_float_positional(v, trim='0')
    if kind == 'huge':
        v = round(r.uniform(1e5, 1e9), 3)
        return v, np.format_float_positional(v, trim='0')
    if kind == 'short':
        v = float(r.randrange(0, 100))
        return v, '%d.' % v
    v = float('%de%d' % (r.randrange(1, 99), r.randrange(-8, 6)))
    return v, '%.3e' % v if float('%.3e' % v) == v else repr(v)


def same(a, b):
    """Equal in value and in kind."""
    if isinstance(b, (list, tuple, np.ndarray)):
        if isinstance(a, str) or not hasattr(a, '__len__'):
            return False
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.size == 0 or all(same(x, y) for x, y in zip(a.flatten().tolist(), b.flatten().tolist())))
    if b is None or isinstance(b, (str, bool)):
        return type(a) in (type(b), np.bool_, np.str_) and a == b
    if isinstance(a, (bool, str)) or a is None:
        return False
    return a == b


def defaults_intact(mon, when):
    from aeolis.constants import DEFAULT_CONFIG
    bad = [k for k in DEFAULTS if k not in DEFAULT_CONFIG or not same(DEFAULT_CONFIG[k], DEFAULTS[k])]
    mon.check(not bad, 'defaults', lambda: 'default of %s %s is %r, expected %r' % (
        bad[0], when, DEFAULT_CONFIG.get(bad[0]), DEFAULTS[bad[0]]))


def run(c, mon):
    import random
    from aeolis import inout
    r = random.Random(c['seed'])
    defaults_intact(mon, 'before')
    {'read': read, 'roundtrip': roundtrip, 'reject': reject, 'model': model}[c['mode']](c, r, mon, inout)
    defaults_intact(mon, 'after reading and writing')
    mon.ev('configurations')


def matrix(r, kind='any'):
    rs = np.random.RandomState(r.randrange(2 ** 31))
    shape = r.choice([(1, 4), (5, 3), (3,), (2, 7), (6, 2)])
    a = rs.uniform(-5, 5, shape)
    if kind == 'complex':
        a = a + 1j * rs.uniform(0, 2, shape)
    return a


def read(c, r, mon, inout):
    want, text = {}, []

    def put(k, v, s):
        want[k] = v
        pad = ' ' * r.randrange(0, 12)
        com = r.choice(['', '', '', ' % note', '  %% a = 3', ' % T', '%x'])
        text.append('%s%s%s=%s%s%s' % (pad, k, ' ' * r.randrange(0, 4), ' ' * r.randrange(0, 4), s, com))
    for k in r.sample(FLAGS, r.randrange(0, 12)):
        v = r.random() < .5
        put(k, v, 'T' if v else 'F')
    for k in r.sample(NUMS, r.randrange(0, 15)):
        v, s = number(r)
        if r.random() < .2:
            # a value that happens to be the default of another parameter
            v = DEFAULTS[r.choice([n for n in NUMS if isinstance(DEFAULTS.get(n), (int, float))] + ['z'])]
            s = repr(v)
        put(k, v, s)
    if r.random() < .2 and not {'z', 'h'} & set(want):
        v, s = number(r)
        put('z', v, s)
        put('h', DEFAULTS['z'], repr(DEFAULTS['z']))
    for k in r.sample(sorted(NAMES), r.randrange(0, 5)):
        v = r.choice(NAMES[k])
        put(k, v, v)
    for k in r.sample(FILES, r.randrange(0, 4)):
        how = r.choice(['data', 'data', 'missing', 'none'])
        if how == 'data':
            a = matrix(r)
            fn = r.choice(['%s.txt', 'in_%s.dat', '%s']) % k
            np.savetxt(fn, a, fmt='%.18e')
            put(k, np.atleast_1d(np.loadtxt(fn)) if False else np.squeeze(a) if a.ndim == 2 and 1 in a.shape else a, fn)
        elif how == 'missing':
            put(k, 'not_there_%s.txt' % k, 'not_there_%s.txt' % k)
        else:
            put(k, None, r.choice(['', 'None']))
    for k in r.sample(MASKS, r.randrange(0, 2)):
        a = matrix(r, 'complex')
        fn = '%s.txt' % k
        with open(fn, 'w') as fp:
            for row in np.atleast_2d(a):
                fp.write(' '.join('(%.17g%+.17gj)' % (z.real, z.imag) for z in row) + '\n')
        put(k, np.squeeze(a) if a.ndim == 2 and 1 in a.shape else a, fn)
    sep = lambda: ' ' * r.choice([1, 1, 1, 2, 3])
    if r.random() < .6:
        n = r.randrange(1, 5)
        gs, gd = [number(r) for _ in range(n)], [number(r) for _ in range(n)]
        j = sep()
        put('grain_size', [v for v, _ in gs], j.join(s for _, s in gs))
        put('grain_dist', [v for v, _ in gd], j.join(s for _, s in gd))
    if r.random() < .6:
        vs = r.sample(['zb', 'Ct', 'uw', 'ustars0', 'pickup', 'mass', 'Ct_avg', 'zb.sum'], r.randrange(2, 5))
        put('output_vars', vs, sep().join(vs))
    if r.random() < .4:
        ext = r.sample(['zs', 'Hs', 'Tp'], r.randrange(0, 3))
        put('external_vars', ext, ' '.join(ext))
    if r.random() < .3:
        v, s = number(r)
        put('my_own_parameter', v, s)
    r.shuffle(text)
    if want and r.random() < .3:
        # later lines override earlier ones
        k = r.choice(sorted(want))
        if k in NUMS:
            v, s = number(r)
            want[k] = v
            text.append('%s = %s' % (k, s))
            mon.sig('duplicate')
    for _ in range(r.randrange(0, 6)):
        text.insert(r.randrange(0, len(text) + 1), r.choice(['', '% comment', '%' * 70, '   % nx = 99999', '%dt = 17', 'no equal sign here', '\t']))
    name = r.choice(['aeolis.txt', 'run.1.txt', 'cfg', 'sub/model.txt', 'a b.txt'])
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name))
    with open(name, 'w') as fp:
        fp.write('\n'.join(text) + r.choice(['', '\n']))
    before = open(name, 'rb').read()
    p = inout.read_configfile(name)
    for k, v in want.items():
        mon.check(k in p and (same(p[k], v) or (k == 'h' and v == 0 and same(p[k], p['z']))), 'value', lambda: '%s is %r, written as %r' % (
            k, p.get(k), [t for t in text if t.split('=')[0].strip() == k][-1]))
        mon.ev('values')
    for k, v in DEFAULTS.items():
        if k in want or k in ('output_file', 'h'):
            continue
        mon.check(k in p and same(p[k], v), 'default', lambda: '%s is %r without being given, default %r' % (k, p.get(k), v))
    if 'h' not in want:
        mon.check(same(p['h'], p['z']), 'default', 'h is %r, z is %r' % (p['h'], p['z']))
    mon.check(p['output_file'] == os.path.splitext(name)[0] + '.nc', 'default', 'output file is %r' % p['output_file'])
    extra = [k for k in p if k not in DEFAULTS and k not in want]
    mon.check(not extra, 'no-extra', lambda: 'parameters %r appear from nowhere' % extra)
    mon.check(open(name, 'rb').read() == before, 'input-kept', 'configuration file changed by reading it')
    # without parsing of files names stay names; without defaults nothing is added
    q = inout.read_configfile(name, parse_files=False, load_defaults=False)
    for k in want:
        if k.endswith('_file') or k.endswith('_mask'):
            mon.check(k in q and (q[k] is None or isinstance(q[k], str)), 'names', lambda: '%s is %r without parsing files' % (k, type(q.get(k))))
    odd = [k for k in q if k not in want and k not in ('grain_size', 'grain_dist', 'external_vars', 'output_file', 'h')]
    mon.check(not odd, 'no-defaults', lambda: 'parameters %r appear although defaults were not asked for' % odd)
    mon.sig('read', len(want) // 6, name, 'lists' if 'grain_size' in want else '', 'mask' if any(k in want for k in MASKS) else '')


def roundtrip(c, r, mon, inout):
    rs = np.random.RandomState(c['seed'] % (2 ** 31))
    p = {}
    for k in FLAGS:
        p[k] = bool(r.random() < .5)
    for k in r.sample(NUMS, r.randrange(3, len(NUMS))):
        v, _ = number(r)
        p[k] = v if r.random() < .5 else float(rs.uniform(-1, 1) * 10. ** rs.randint(-12, 9))
        if r.random() < .1:
            p[k] = np.float64(p[k])
    for k in NAMES:
        p[k] = r.choice(NAMES[k])
    n = r.randrange(1, 6)
    p['grain_size'] = (np.sort(rs.uniform(5e-5, 1e-3, n))).tolist() if r.random() < .5 else np.sort(rs.uniform(5e-5, 1e-3, n))
    p['grain_dist'] = rs.dirichlet(np.ones(n))
    p['output_vars'] = r.sample(['zb', 'Ct', 'uw', 'pickup', 'mass_avg'], r.randrange(2, 5))
    p['external_vars'] = r.choice([[], ['zs', 'Hs']])
    p['output_file'] = 'out.nc'
    p['h'] = p['z'] = 10.
    arrays = {}
    for k in FILES:
        if r.random() < .5:
            arrays[k] = p[k] = rs.uniform(-1, 1, (r.randrange(2, 6), r.randrange(2, 5))) * 10. ** r.randrange(-6, 6)
        else:
            p[k] = None
    old = {}
    for k in list(arrays)[:2]:
        old[k] = 'precious %s\n' % k
        with open(k.replace('_file', '') + '.txt', 'w') as fp:
            fp.write(old[k])
    q = copy.deepcopy(p)
    inout.write_configfile('written.txt', p)
    mon.check(set(p) == set(q) and all(same(p[k], q[k]) for k in q), 'argument-kept', 'configuration changed by writing it')
    g = inout.read_configfile('written.txt', load_defaults=r.random() < .5)
    for k, v in q.items():
        mon.check(k in g and same(g[k], v), 'roundtrip', lambda: '%s written as %r is read as %r' % (k, v, g.get(k)))
        mon.ev('values')
    for k, t in old.items():
        fn = k.replace('_file', '') + '.txt'
        kept = [f for f in os.listdir('.') if f.startswith(fn) and f != fn and open(f).read() == t]
        mon.check(len(kept) == 1, 'backup', 'previous contents of %s are lost' % fn)
    # every earlier contents survives, however often files are written again
    for k in list(arrays)[:1]:
        fn = k.replace('_file', '') + '.txt'
        gens = [open(fn).read()]
        for n in range(gen.pick(r, 3, 5, 12, 25)):
            inout.write_configfile('written%d.txt' % n, {k: arrays[k] + n + 1.})
            gens.append(open(fn).read())
        kept = [open(f).read() for f in os.listdir('.') if f.startswith(fn)]
        lost = [n for n, t in enumerate(gens) if t not in kept]
        mon.check(not lost, 'backup-history', lambda: 'contents number %s of %s is lost after it was written %d times' % (lost, fn, len(gens)))
        mon.sig('rewritten', len(gens))
        np.savetxt(fn, arrays[k])
    # a second generation is the same as the first
    inout.write_configfile('again.txt', g)
    g2 = inout.read_configfile('again.txt', load_defaults=False)
    bad = [k for k in q if k not in g2 or not same(g2[k], g[k])]
    mon.check(not bad, 'roundtrip', lambda: '%s changes when written a second time' % bad)
    if r.random() < .3:
        inout.write_configfile('default.txt')
        d = inout.read_configfile('default.txt', load_defaults=False)
        bad = [k for k in DEFAULTS if k not in ('output_file', 'output_types', 'h', 'external_vars') and not (k in d and same(d[k], DEFAULTS[k]))]
        bad = [k for k in bad if not isinstance(DEFAULTS[k], str) or ' ' not in DEFAULTS[k]]
        mon.check(not bad, 'roundtrip-default', lambda: 'default of %s is %r after writing and reading' % (bad[0], d.get(bad[0])))
        mon.sig('defaults written')
    mon.sig('roundtrip', len(q) // 20, len(arrays))


def reject(c, r, mon, inout):
    from aeolis.model import AeoLiS
    b = gen.base_case(r, nf=1, nl=1, grain='1d', wind='const', steps=1)
    if b['ny'] and r.random() < .5:
        b['ny'] = 1
    cfg, arr = gen.build(b)
    what = r.choice(['none', 'no-config', 'xgrid', 'bed', 'ygrid', 'xgrid-gone', 'bed-gone', 'wind-cols', 'wind-flat', 'tide-cols', 'meteo-cols'])
    if what == 'ygrid' and not b['ny']:
        what = 'bed'
    if what == 'xgrid':
        cfg.pop('xgrid_file')
    elif what == 'bed':
        cfg.pop('bed_file')
    elif what == 'ygrid':
        cfg.pop('ygrid_file')
    elif what == 'none':
        # records may hold more columns than are used
        for k, n in (('wind', 3), ('tide', 2), ('meteo', 6)):
            if r.random() < .5:
                arr[k] = np.abs(np.random.RandomState(c['seed'] % 1000).normal(size=(4, n + r.randrange(0, 3))))
                arr[k][:, 0] = np.arange(4)
                cfg[k + '_file'] = k + '.txt'
    elif what == 'wind-cols':
        arr['wind'] = arr['wind'][:, :2]
    elif what == 'wind-flat':
        arr['wind'] = arr['wind'][0]
    elif what == 'tide-cols':
        arr['tide'] = np.arange(5.)
        cfg['tide_file'] = 'tide.txt'
    elif what == 'meteo-cols':
        arr['meteo'] = np.zeros((4, r.randrange(1, 6)))
        cfg['meteo_file'] = 'meteo.txt'
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    if what == 'xgrid-gone':
        os.remove('x.txt')
    elif what == 'bed-gone':
        os.remove('bed.txt')
    name = 'nothere.txt' if what == 'no-config' else 'aeolis.txt'
    try:
        p = inout.read_configfile(name)
        inout.check_configuration(p)
        err = None
    except Exception as e:
        err = e
    if what == 'none':
        mon.check(err is None, 'accepts', lambda: 'complete configuration refused: %s' % err)
    elif what == 'no-config':
        mon.check(isinstance(err, IOError), 'rejects', lambda: 'missing configuration file gives %r' % err)
    else:
        mon.check(isinstance(err, ValueError), 'rejects', lambda: 'faulty configuration (%s) gives %r' % (what, err))
    mon.sig('reject', what)


def model(c, r, mon, inout):
    """What is configured is what the model uses, whatever other models were made before."""
    from aeolis.model import AeoLiS
    ps = []
    for n in range(2):
        b = gen.base_case(r, steps=1)
        cfg, arr = gen.build(b)
        for k in r.sample(['accfac', 'T', 'bi', 'Cb', 'porosity', 'rhog', 'CFL'], 3):
            cfg[k] = {'accfac': 2., 'T': .5, 'bi': .7, 'Cb': 1.8, 'porosity': .35, 'rhog': 2600., 'CFL': .8}[k]
        for f in os.listdir('.'):
            os.remove(f)
        gen.write_arrays(arr, cfg)
        gen.write_config(cfg)
        m = AeoLiS('aeolis.txt')
        m.initialize()
        ps.append((m, cfg, b))
    for m, cfg, b in ps:
        for i in range(2):
            for k, v in cfg.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    mon.check(same(m.p[k], v), 'used', lambda: '%s is %r in the model, configured %r' % (k, m.p[k], v))
            for k in ('accfac', 'T', 'bi', 'Cb', 'porosity', 'rhog', 'CFL', 'scheme', 'solver', 'g', 'rhoa'):
                if k not in cfg:
                    mon.check(same(m.p[k], DEFAULTS[k]), 'used', lambda: '%s is %r in the model, default %r' % (k, m.p[k], DEFAULTS[k]))
            mon.check(m.p['nfractions'] == len(np.atleast_1d(m.p['grain_size'])) == b['nf'], 'fractions', 'number of fractions')
            mon.check(m.get_var('mass').shape == (b['ny'] + 1, b['nx'] + 1, b['nl'], b['nf']), 'shape', 'shape of mass is %s' % (m.get_var('mass').shape,))
            m.update()
        mon.sig('model', b['nf'], b['nl'], bool(b['ny']))
