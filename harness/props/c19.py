"""Output file."""
import os

import numpy as np
from harness import gen
from harness.props.c18 import STATS, reference, requested

ID = 'C19'
N_QUICK, N_THOROUGH = 130, 2600
RULE = ('Random complete runs (time loop, callbacks) with random output variables, statistics, intervals (divisors, multiples, '
        'longer than the run), start times, grids and leftovers of earlier runs; the state is recorded after each step, the '
        'output file is read back during the run, after the run and after runs that were broken off half-way.')
ASSUMPTIONS = ['output variables other than the coordinates x and y, which are always written', 'steps of a run all succeed or the run ends']
VARS = ('zb', 'zs', 'Ct', 'Cu', 'uw', 'uws', 'udir', 'mass', 'pickup', 'q', 'qs', 'Hs', 'Tp', 'ustars0', 'ustar', 'uth', 'w_init', 'w_bed', 'moist',
        'theta_stat', 'taus', 'tau', 'Rti', 'dzb', 'zne', 'thlyr', 'rhoveg', 'zb0', 'S', 'gw', 'scan_w', 'us', 'R', 'TWL', 'ds', 'dsdn', 'zsep')
UNITS = {'zb': 'm', 'zs': 'm', 'Ct': 'kg/m^2', 'Cu': 'kg/m^2', 'uw': 'm/s', 'mass': 'kg/m^2', 'pickup': 'kg/m^2', 'qs': 'kg/m/s', 'Hs': 'm', 'Tp': 's',
         'ustar': 'm/s', 'uth': 'm/s', 'w_init': '1', 'taus': 'N/m^2', 'rhoveg': '1', 'thlyr': 'm', 'udir': 'rad', 'theta_stat': 'degrees', 'dsdn': 'm^2'}
NAMES = {'nx': 's', 'ny': 'n', 'nlayers': 'layers', 'nfractions': 'fractions'}


class Broken(Exception):
    pass


def case(rng, k):
    c = gen.base_case(rng, nf=gen.pick(rng, 1, 2, 3), nl=gen.pick(rng, 1, 2, 3))
    c['mode'] = ('run', 'run', 'abort', 'dump')[k % 4]
    c['ny'] = min(c['ny'], 4)
    c['nx'] = min(c['nx'], 14)
    c['dt'] = gen.pick(rng, 1., 10., 60., .7)
    c['steps'] = rng.randint(2, 14)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'calm', 'const')
    vs = rng.sample(VARS, rng.randint(1, 6))
    out = []
    for v in vs:
        if rng.random() < .85:
            out.append(v)
        for e in rng.sample(STATS, rng.randint(0, 3)):
            out.append('%s%s%s' % (v, gen.pick(rng, '_', '_', '_', '.'), e))
    if len(out) < 2:
        out += [v for v in ('zb', 'Ct') if v not in out][:2]
    rng.shuffle(out)
    ot = gen.pick(rng, 1., 1., 2., 3., 1.5, .5, .3, 4.7, 100.) * c['dt']
    cfg = dict(output_vars=out, output_times=round(ot, 6), accfac=gen.pick(rng, 1., 1., 10.),
               scheme=gen.pick(rng, 'euler_backward', 'euler_forward'))
    ty = rng.sample(STATS, rng.randint(0, 3)) if rng.random() < .4 else []
    if ty:
        cfg['output_types'] = ty
    if rng.random() < .3:
        cfg['output_file'] = gen.pick(rng, 'out.nc', 'results.v2.nc', 'res')
    if rng.random() < .4:
        cfg['refdate'] = gen.pick(rng, '2011-08-01', '1953-02-01')
    if rng.random() < .25:
        t0 = gen.pick(rng, 100., 3600.)
        cfg['tstart'] = t0
        cfg['tstop'] = t0 + c['dt'] * (c['steps'] + .5)
    if rng.random() < .4:
        cfg['process_tide'] = cfg['process_wave'] = cfg['process_moist'] = True
        c['series'] = {'tide': [.5, 1., 3.], 'wave': [1., 6.]}
    if rng.random() < .3:
        cfg['process_avalanche'] = True
    if rng.random() < .3:
        c['rot'] = gen.pick(rng, 30., -20.) if c['ny'] else 0.
    if c['mode'] == 'dump':
        for v in ('mass', 'zb'):
            if v not in out:
                out.append(v)
        cfg['output_vars'] = out
    if cfg['scheme'] == 'euler_forward':    # hundreds of steps otherwise
        k = min(1., .1 / c['dt'])
        c['dt'] *= k
        cfg['output_times'] = round(cfg['output_times'] * k, 6)
        if 'tstop' in cfg:
            cfg['tstop'] = t0 + c['dt'] * (c['steps'] + .5)
    c['cfg'] = cfg
    c['stale'] = rng.random() < .4
    c['abort'] = rng.randint(0, c['steps'])
    c['meddle'] = gen.pick(rng, '', '', 'ask', 'zb')
    return c


def run(c, mon):
    import netCDF4
    from aeolis.model import AeoLiSRunner
    cfg, arr = gen.write_case(c)
    name = cfg.get('output_file', 'aeolis.nc')
    if c['stale']:
        with netCDF4.Dataset(name, 'w') as nc:
            nc.createDimension('time', 0)
            nc.createDimension('s', 3)
            nc.createVariable('time', 'f8', ('time',))
            nc.createVariable('zb', 'f4', ('time', 's'))
            nc.variables['time'][:] = np.arange(50) * 1e4
            nc.variables['zb'][:] = 7.
    hist = []       # (time, values) at the start and after each step
    expect = []     # (time, values, history of the interval)
    acc = cfg['accfac']

    class Runner(AeoLiSRunner):
        want = None

        def record(self):
            if self.want is None:
                self.want = requested(cfg, self.s)
            v = {}
            for n in self.want:
                a = np.array(self.s[n], float)
                if n == 'q' and hist:
                    a = np.hypot(self.s['qs'], self.s['qn'])
                v[n] = a / acc if n in ('Ct', 'Cu') else a
            hist.append((self.t, v))
            due = self.t == 0 or self.t - (expect[-1][0] if expect else 0.) >= self.p['output_times']
            if len(hist) > 1:
                pending.append(v)
            if due:
                expect.append((self.t, v, list(pending), len(hist) == 1))
                del pending[:]

        def update(self, dt=-1):
            if not hist:
                self.record()
                look(self, False)
            super(Runner, self).update(dt)
            self.record()
            mon.ev('steps')

    pending = []

    def look(m, final):
        """The file as another program would find it at this moment."""
        mon.check(os.path.exists(name), 'file', 'no output file during the run')
        with netCDF4.Dataset(name, 'r') as nc:
            nc.set_auto_mask(False)
            t = nc.variables['time'][:]
            mon.check(len(t) == len(expect) and all(t == [e[0] for e in expect]), 'times', lambda: 'output at %s, due at %s' % (
                list(t), [e[0] for e in expect]))
            if len(t) != len(expect) or not len(t):
                return
            b = nc.variables['time_bounds'][:]
            mon.check(all(b[:, 1] == t) and all(b[1:, 0] == t[:-1]) and b[0, 0] == 0, 'bounds', lambda: 'bounds %s of times %s' % (b.tolist(), list(t)))
            which = range(len(t)) if final else [len(t) - 1]
            for i in which:
                _, v, h, first = expect[i]
                for n, exts in m.want.items():
                    for e in exts:
                        d = [x[n] for x in h]
                        with np.errstate(all='ignore'):
                            ref = reference(d, e, v[n].shape)
                        if not np.isfinite(ref).all() and d:
                            if not all(np.isfinite(x).all() for x in d):
                                continue
                        var = nc.variables.get('%s_%s' % (n, e))
                        if not mon.check(var is not None, 'variable', lambda: '%s of %s not in file' % (e, n)):
                            continue
                        big = max([1e-300] + [float(np.nanmax(abs(x[np.isfinite(x)]), initial=0.)) for x in d])
                        atol = 1e-9 * big if e != 'var' else 1e-10 * big ** 2
                        mon.close(var[i], ref, 'statistic', rtol=3e-7, atol=atol + 1e-37, msg='%s of %s at output %d (%d steps)' % (e, n, i, len(d)))
                        mon.ev('records')
                    if n in plain:
                        var = nc.variables.get(n)
                        if not mon.check(var is not None, 'variable', lambda: '%s not in file' % n):
                            continue
                        mon.close(var[i], v[n].astype(np.float32), 'value', rtol=2e-7, atol=1e-37, msg='%s at output %d' % (n, i))
                        mon.ev('records')

    plain = []
    calls = [0]
    abort = c['abort'] if c['mode'] == 'abort' else -1

    def hook(m):
        if not plain:
            plain.extend(o for o in cfg['output_vars'] if o in m.s)
        if calls[0] == 0 or calls[0] % 4 == 1:
            if hist:
                look(m, False)
        if c['meddle'] == 'ask':
            for n in cfg['output_vars']:
                m.get_var(n, clear=False)
        elif c['meddle'] == 'zb' and calls[0] == 1:
            m.set_var('zb', m.get_var('zb', clear=False) + .01)
        if calls[0] == abort:
            raise Broken()
        calls[0] += 1

    m = Runner('aeolis.txt')
    try:
        m.run(callback=hook)
        mon.ev('completed')
    except Broken:
        mon.ev('broken off')
        if not hist:
            m.record()
            plain.extend(o for o in cfg['output_vars'] if o in m.s and o not in plain)
    look(m, True)
    if not expect:
        mon.sig('no output')
    with netCDF4.Dataset(name, 'r') as nc:
        nc.set_auto_mask(False)
        size = {k: len(v) for k, v in nc.dimensions.items()}
        want = dict(s=c['nx'] + 1, n=c['ny'] + 1, layers=c['nl'], fractions=c['nf'], time=len(expect))
        mon.check(all(size.get(k) == v for k, v in want.items()), 'dimensions', lambda: 'dimensions %s, expected %s' % (size, want))
        mon.close(nc.variables['x'][:], np.reshape(arr['x'], (c['ny'] + 1, -1)).astype(np.float32), 'coordinates', rtol=2e-7, atol=1e-6, msg='x')
        if c['ny']:
            mon.close(nc.variables['y'][:], arr['y'].astype(np.float32), 'coordinates', rtol=2e-7, atol=1e-6, msg='y')
        mon.close(nc.variables['fractions'][:], np.float32(cfg['grain_size']), 'coordinates', rtol=2e-7, atol=1e-9, msg='grain sizes')
        mon.check(nc.variables['layers'][:].tolist() == list(range(c['nl'])) and nc.variables['s'][:].tolist() == list(range(c['nx'] + 1)) and
                  nc.variables['n'][:].tolist() == list(range(c['ny'] + 1)), 'coordinates', 'indices of cells and layers')
        ref = cfg.get('refdate', '2020-01-01 00:00')
        for n in ('time', 'time_bounds'):
            mon.check(nc.variables[n].units.startswith('seconds since %s' % ref), 'units', lambda: 'units of %s are %r' % (n, nc.variables[n].units))
        for n, var in nc.variables.items():
            for v in m.want:
                if n == v or (n.startswith(v + '_') and n[len(v) + 1:] in STATS):
                    dims = ('time',) + tuple(NAMES.get(d, d) for d in m.dimensions(v))
                    mon.check(var.dimensions == dims, 'variable', lambda: 'dimensions of %s are %s' % (n, var.dimensions))
                    if v in UNITS:
                        mon.check(getattr(var, 'units', None) == UNITS[v], 'units', lambda: 'unit of %s is %r' % (n, getattr(var, 'units', None)))
                    lo, hi = getattr(var, 'valid_min', -np.inf), getattr(var, 'valid_max', np.inf)
                    mon.check(lo == -np.inf and hi == np.inf, 'attributes', lambda: 'values of %s beyond %g..%g are declared invalid' % (n, lo, hi))
                    crs = getattr(var, 'grid_mapping', 'crs')
                    mon.check(crs in nc.variables, 'attributes', lambda: 'grid mapping %r of %s does not exist' % (crs, n))
        for n, u in (('x', 'm'), ('y', 'm'), ('fractions', 'm'), ('layers', '1'), ('s', '1'), ('n', '1')):
            mon.check(nc.variables[n].units == u, 'units', lambda: 'unit of %s is %r' % (n, nc.variables[n].units))
            lo, hi = getattr(nc.variables[n], 'valid_min', -np.inf), getattr(nc.variables[n], 'valid_max', np.inf)
            mon.check(lo <= 0 and hi == np.inf and (n not in 'xy' or lo == -np.inf), 'attributes', lambda: 'values of %s beyond %g..%g are declared invalid' % (n, lo, hi))
        if 'crs' in nc.variables:
            g = nc.variables['crs']
            rd = dict(semi_major_axis=6377397.155, false_easting=155000., false_northing=463000., scale_factor_at_projection_origin=.9999079)
            bad = [k for k in rd if getattr(g, 'epsg_code', '') == 'EPSG:28992' and abs(getattr(g, k, rd[k]) - rd[k]) > 1e-9 * rd[k]]
            mon.check(not bad, 'attributes', lambda: '%s of EPSG:28992 is %r' % (bad[0], getattr(g, bad[0])))
        extra = [n for n in nc.variables if any(n == o for o in VARS if o not in plain)]
        mon.check(not extra, 'variable', lambda: '%s in file without being asked for' % extra)
    if c['mode'] == 'dump' and expect:
        from aeolis import netcdf, inout
        i = c['seed'] % len(expect)
        for v, fn in (('mass', 'mass_dump.txt'), ('zb', 'zb_dump.txt')):
            netcdf.dump(name, fn, var=v, ix=i)
            a = expect[i][1][v]
            mon.close(np.loadtxt(fn).reshape(a.shape), a, 'dump', rtol=2e-7, atol=1e-12, msg='dump of %s' % v)
        netcdf.dump(name, 'last.txt')
        mon.close(np.loadtxt('last.txt').reshape(expect[-1][1]['mass'].shape), expect[-1][1]['mass'], 'dump', rtol=2e-7, atol=1e-12,
                  msg='default dump')
        cfg2 = dict(cfg, bedcomp_file='mass_dump.txt', output_file='second.nc')
        if 'gd' in arr:
            cfg2['grain_dist'] = np.ones(c['nf']) / c['nf']
        gen.write_config(cfg2, 'second.txt')
        from aeolis.model import AeoLiS
        m2 = AeoLiS('second.txt')
        m2.initialize()
        mon.close(m2.s['mass'], expect[i][1]['mass'], 'dump', rtol=2e-7, atol=1e-12, msg='bed composition taken over from a dump')
    ratio = cfg['output_times'] / c['dt']
    mon.sig(c['mode'], 'stale' if c['stale'] else '', 'start' if cfg.get('tstart') else '', '%.1f' % min(ratio, 9), len(expect) // 3,
            'stat' if any(m.want.values()) else '')


warmup = gen.warmup
