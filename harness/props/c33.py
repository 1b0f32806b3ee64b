"""Figures for inspection and set-up tools."""
import importlib.util
import os

import numpy as np
from harness import gen, rt, trace

ID = 'C33'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random models with inspection figures switched on: every figure that is drawn is captured and its axes, colours, lines, '
        'arrows, labels and limits are compared with records and state; a twin without figures has to compute the same. Grids and '
        'beds made by the set-up scripts are loaded into models, plots of output files are compared with the files.')
ASSUMPTIONS = ['figures are captured when they are saved, most of them are not rasterised', 'plot3d does not run with current plotting libraries and is left out']
CASE_LIMIT = 120
MODES = ('figures', 'grid', 'figures', 'cone', 'figures', 'plots')
FIELDS = {'Bed level, zb': 'zb', 'Non-erodible layer, zne': 'zne', 'Vegetation density': 'rhoveg', 'Wind velocity': 'uw', 'Shear velocity': 'ustar',
          'Shear stress': 'tau', 'Soil moisture': 'moist', 'Ground water level': 'gw', 'Velocity threshold': 'uth'}
MASKS = {'Threshold mul': ('threshold_mask', 0), 'Tide mul': ('tide_mask', 0), 'Wave mul': ('wave_mask', 0),
         'Threshold add': ('threshold_mask', 1), 'Tide add': ('tide_mask', 1), 'Wave add': ('wave_mask', 1)}
ARROWS = {'uw': ('uws', 'uwn'), 'ustar': ('ustars', 'ustarn'), 'tau': ('taus', 'taun')}


def case(rng, k):
    mode = MODES[k % len(MODES)]
    if mode in ('grid', 'cone'):
        return dict(mode=mode, seed=rng.randrange(10 ** 9), nx=rng.randint(4, 60), ny=rng.randint(2, 40) if mode == 'cone' or rng.random() < .8 else rng.randint(2, 90),
                    dx=gen.pick(rng, 1., .1, .3, .7, 2.5, round(rng.uniform(.05, 5), 3)), dy=gen.pick(rng, 1., .1, .6, 4., round(rng.uniform(.05, 5), 3)),
                    x0=gen.pick(rng, 0., 0., 12.5, -300.1, 1000.), y0=gen.pick(rng, 0., 0., .3, 450., -10.), alfa=gen.pick(rng, 270., 0., 90., 355., round(rng.uniform(0, 360), 1)),
                    height=round(rng.uniform(.5, 8), 2), diameter=round(rng.uniform(2, 40), 1), mid=[round(rng.uniform(0, 1), 3), round(rng.uniform(0, 1), 3)])
    c = gen.base_case(rng)
    c['mode'] = mode
    c['nx'] = rng.randint(6, 24)
    c['ny'] = min(c['ny'], 12)
    c['steps'] = rng.randint(2, 4)
    c['dt'] = gen.pick(rng, 1., 10., 60.)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'const')
    cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_backward', 'crank_nicolson', 'euler_forward') if c['mode'] == 'figures' else 'euler_backward')
    if cfg['scheme'] == 'euler_forward':
        c['dt'] = .1
    if rng.random() < .4:
        cfg['solver'] = 'steadystate'
    if c['ny'] and rng.random() < .5:
        c['rot'] = round(rng.uniform(-60, 60), 1)
    if rng.random() < .3:
        cfg['tstart'] = 20.
        cfg['tstop'] = 20. + c['dt'] * (c['steps'] + .5)
    ser = {}
    if rng.random() < .6:
        ser['tide'] = [.3, .8, 2.]
        cfg['process_tide'] = True
    if rng.random() < .5:
        ser['wave'] = [1., 6.]
        cfg['process_wave'] = True
    if ser.get('tide') and rng.random() < .5:
        cfg['process_moist'] = True
    for q in ('tide', 'wave', 'threshold'):
        if rng.random() < .4:
            ser[q + '_mask'] = [round(rng.uniform(.3, 1), 2), round(rng.uniform(0, .4), 2)]
    if rng.random() < .4:
        ser['ne'] = .4
    if rng.random() < .3 and c['ny']:
        ser['veg'] = .8
    c['series'] = ser
    cfg['boundary_offshore'] = gen.pick(rng, 'constant', 'flux', 'gradient')
    cfg['boundary_onshore'] = gen.pick(rng, 'gradient', 'flux')
    c['cfg'] = cfg
    c['nowind'] = mode == 'figures' and k % 10 == 4       # the wind comes from elsewhere
    c['real'] = k % 30 == 0       # draw for real
    c['which'] = [rng.randint(0, 3), rng.randint(0, 10), rng.randint(0, 4)]
    return c


def tool(mon, *path):
    fn = os.path.join(rt.REPO, 'tools', *path)
    if not os.path.exists(fn):
        mon.note('no ' + '/'.join(path))
        return None
    spec = importlib.util.spec_from_file_location('tool_' + path[-1][:-3], fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Capture(object):
    """Figures at the moment they are saved."""

    def __init__(self, real):
        self.real, self.figs = real, []

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.F, self.plt = Figure, plt
        self.saved, self.tl, self.ptl = Figure.savefig, Figure.tight_layout, plt.tight_layout
        cap = self

        def savefig(fig, fname, *a, **kw):
            cap.figs.append((os.path.basename(str(fname)), contents(fig)))
            if cap.real:
                return cap.saved(fig, fname, *a, **dict(kw, dpi=30))
        Figure.savefig = savefig
        if not self.real:
            Figure.tight_layout = lambda *a, **kw: None
            plt.tight_layout = lambda *a, **kw: None
        return self

    def __exit__(self, *a):
        self.F.savefig, self.F.tight_layout, self.plt.tight_layout = self.saved, self.tl, self.ptl


def drawn(q):
    a = np.ma.filled(np.ma.array(q.get_array(), float), np.nan)
    return np.where(np.isfinite(a), a, np.nan)


def contents(fig):
    from matplotlib.collections import PathCollection, QuadMesh
    from matplotlib.quiver import Quiver
    out = []
    for ax in fig.axes:
        d = dict(title=ax.get_title(), mesh=[], points=[], arrows=[], lines=[(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in ax.lines],
                 texts=[(t.get_text(), t.get_position()) for t in ax.texts], xlim=ax.get_xlim(), ylim=ax.get_ylim())
        for q in ax.collections:
            if isinstance(q, QuadMesh):
                d['mesh'].append((np.array(q.get_coordinates()), drawn(q)))
            elif isinstance(q, Quiver):
                d['arrows'].append((np.array(q.XY), np.ma.filled(q.U, np.nan).copy(), np.ma.filled(q.V, np.nan).copy()))
            elif isinstance(q, PathCollection):
                d['points'].append((np.array(q.get_offsets()), drawn(q)))
        out.append(d)
    return out


def shows(mon, ax, x, y, v, what):
    """One field of values over the grid is what the axes show."""
    v = np.broadcast_to(np.asarray(v, float), x.shape)
    v = np.where(np.isfinite(v), v, np.nan)
    if ax['mesh']:
        xy, a = ax['mesh'][0]
        mon.check(a.size == v.size, 'values', lambda: '%s: %d values drawn, %d cells' % (what, a.size, v.size))
        if a.size == v.size:
            mon.close(a.reshape(v.shape), v, 'values', rtol=1e-8, atol=1e-10, msg=what)
        if xy.shape[:2] == (v.shape[0] + 1, v.shape[1] + 1):
            mid = .25 * (xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1])
            tol = 1e-6 * (1 + abs(x).max() + abs(y).max())
            mon.close(mid[..., 0], x, 'places', rtol=0, atol=tol, msg='x of ' + what)
            mon.close(mid[..., 1], y, 'places', rtol=0, atol=tol, msg='y of ' + what)
    elif ax['points']:
        xy, a = ax['points'][0]
        mon.check(a.size == v.size, 'values', lambda: '%s: %d values drawn, %d cells' % (what, a.size, v.size))
        if a.size == v.size:
            mon.close(a.ravel(), v.ravel(), 'values', rtol=1e-8, atol=1e-10, msg=what)
            mon.close(xy, np.stack([x.ravel(), y.ravel()], axis=1), 'places', rtol=0, atol=1e-9 * (1 + abs(xy).max()), msg='places of ' + what)
    else:
        mon.check(False, 'values', what + ' is not drawn')
    mon.ev('fields')


def figures(c, mon):
    import matplotlib.pyplot as plt
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    if c['nowind']:
        arr.pop('wind'), cfg.pop('wind_file')
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    ref, states = AeoLiS('aeolis.txt'), []
    ref.initialize()
    states.append((ref.t, trace.snap(ref.s)))
    for i in range(c['steps']):
        ref.update()
        states.append((ref.t, trace.snap(ref.s)))
    os.makedirs('fig')
    os.chdir('fig')
    gen.write_arrays(arr, cfg)
    gen.write_config(dict(cfg, visualization=True))
    # (leftovers of other plots)
    plt.close('all')
    with Capture(c['real']) as cap:
        m = AeoLiS('aeolis.txt')
        m.initialize()
        n0 = len(cap.figs)
        got = [(m.t, trace.snap(m.s))]
        when = []
        for i in range(c['steps']):
            n = len(cap.figs)
            m.update()
            got.append((m.t, trace.snap(m.s)))
            when += [i + 1] * (len(cap.figs) - n)
    mon.check(not plt.get_fignums(), 'closed', '%d figures stay open' % len(plt.get_fignums()))
    plt.close('all')
    for i, ((t, a), (u, b)) in enumerate(zip(got, states)):
        mon.check(t == u, 'undisturbed', lambda: 'time %g with figures, %g without' % (t, u))
        bad = [k for k, v in b.items() if isinstance(v, np.ndarray) and not np.array_equal(np.asarray(a.get(k)), v, equal_nan=v.dtype.kind in 'fc')]
        mon.check(not bad, 'undisturbed', lambda: '%s differ after %d steps because figures are drawn' % (bad[:6], i))
    if c['real']:
        for name, _ in cap.figs:
            with open(name, 'rb') as fp:
                mon.check(fp.read(4) == b'\x89PNG', 'file', '%s is no picture' % name)
    mon.ev('figures', len(cap.figs))
    mon.check(n0 == 2, 'drawn', lambda: '%d figures before the first step' % n0)
    if c['cfg']['scheme'] != 'euler_forward':
        mon.check(when == [1], 'drawn', lambda: 'figures after steps %s' % when)
    s0 = states[0][1]
    shape = s0['zb'].shape
    x = np.reshape(arr['x'], shape)
    y = np.reshape(arr['y'], shape) if c['ny'] else s0['y']
    for name, axes in cap.figs[:n0]:
        if any(t[0].startswith('Offshore') for ax in axes for t in ax['texts']):
            ax = [ax for ax in axes if any(t[0].startswith('Offshore') for t in ax['texts'])][0]
            shows(mon, ax, x, y, arr['bed'].reshape(shape), 'initial bed')
            mid = {'Offshore: ' + m.p['boundary_offshore']: (x[[0, -1], 0].mean(), y[[0, -1], 0].mean()),
                   'Onshore: ' + m.p['boundary_onshore']: (x[[0, -1], -1].mean(), y[[0, -1], -1].mean()),
                   '(0,0)': (x[0, 0], y[0, 0]), '(0,%d)' % c['nx']: (x[0, -1], y[0, -1]), }
            if c['ny']:
                mid['(%d,0)' % c['ny']] = (x[-1, 0], y[-1, 0])
                mid['(%d,%d)' % (c['ny'], c['nx'])] = (x[-1, -1], y[-1, -1])
            for t, xy in mid.items():
                at = [q for w, q in ax['texts'] if w == t]
                mon.check(any(np.allclose(q, xy, rtol=1e-9, atol=1e-6) for q in at), 'labels', lambda: 'label %r at %s, belongs at %s' % (t, at, xy))
            lat = sorted(q for w, q in ax['texts'] if w == 'Lateral: ' + m.p['boundary_lateral'])
            want = sorted((x[j, [0, -1]].mean(), y[j, [0, -1]].mean()) for j in (0, -1))
            mon.check(len(lat) == 2 and np.allclose(lat, want, rtol=1e-9, atol=1e-6), 'labels', lambda: 'lateral boundaries at %s, belong at %s' % (lat, want))
            al = [w for w, _ in ax['texts'] if 'alpha' in w]
            deg = int(m.p['alpha'] + (360. if m.p['alpha'] < 0 else 0.))
            mon.check(len(al) == 1 and (':%d$' % deg in al[0] or ':%d^' % deg in al[0]), 'labels', lambda: 'angle of the grid shown as %s, is %g' % (al, m.p['alpha']))
            mon.sig('grid', 'turned' if m.p['alpha'] else '', bool(c['ny']))
        elif len(axes) == 5:
            rec = {'Wind velocity': arr['wind'][:, [0, 1]], 'Wind direction': arr['wind'][:, [0, 2]]} if 'wind' in arr else {}
            if 'wave' in arr:
                rec['Wave height'] = arr['wave'][:, [0, 1]]
                rec['Wave period'] = arr['wave'][:, [0, 2]]
            if 'tide' in arr:
                rec['Water level'] = arr['tide'][:, [0, 1]]
            for k, v in rec.items():
                ax = [ax for ax in axes if ax['title'].startswith(k)]
                mon.check(len(ax) == 1 and len(ax[0]['lines']) == 1 and ax[0]['lines'][0][0].shape == v[:, 0].shape and
                          np.allclose(np.stack(ax[0]['lines'][0], axis=1), v, rtol=1e-9, atol=.02 if k == 'Wind direction' else 1e-9), 'records', lambda: '%s of the record is not what is drawn' % k)
                mon.ev('records')
            for ax in axes:
                mon.check(np.allclose(ax['xlim'], (m.p['tstart'], m.p['tstop'])), 'records', lambda: 'period shown is %s, run from %g to %g' % (
                    ax['xlim'], m.p['tstart'], m.p['tstop']))
            mon.sig('records', sorted(rec))
        else:
            mon.check(False, 'drawn', 'figure %s shows neither grid nor records' % name)
    for (name, axes), i in zip(cap.figs[n0:], when):
        s = states[i][1]
        seen = []
        for ax in axes:
            for t, v in FIELDS.items():
                if ax['title'].startswith(t):
                    f = s[v] if s[v].ndim == 2 else s[v][:, :, 0]
                    shows(mon, ax, x, y, f, v)
                    seen.append(v)
                    if v in ARROWS and not c.get('rot'):
                        vs, vn = ARROWS[v]
                        mon.check(len(ax['arrows']) == 1, 'arrows', 'no arrows with %s' % v)
                        if ax['arrows']:
                            xy, U, V = ax['arrows'][0]
                            near = [int(np.argmin(np.hypot(x - q[0], y - q[1]))) for q in xy]
                            mon.close(U, s[vs].ravel()[near], 'arrows', rtol=1e-9, atol=1e-12, msg='arrows of ' + vs)
                            mon.close(V, s[vn].ravel()[near], 'arrows', rtol=1e-9, atol=1e-12, msg='arrows of ' + vn)
            for t, (v, im) in MASKS.items():
                if ax['title'].startswith(t):
                    f = np.asarray(arr.get(v, 1.))
                    part = f.imag if im else f.real
                    shows(mon, ax, x, y, part.reshape(shape) if f.size == x.size else np.broadcast_to(part, shape), '%s (%s)' % (v, 'added' if im else 'factor'))
                    seen.append((v, im))
        mon.check(len(seen) == 15, 'drawn', lambda: 'only %s are shown' % (seen,))
        mon.sig('fields', bool(c['ny']), 'turned' if c.get('rot') else '', sorted(k for k in c['series']), c['cfg']['scheme'])


def load(c, mon, alfa=None):
    """The files made are read by a model."""
    from aeolis.model import AeoLiS
    np.savetxt('wind.txt', [[0., 8., 270.], [1000., 8., 270.]])
    cfg = dict(xgrid_file='x.grd', ygrid_file='y.grd', bed_file='z.grd', ne_file='ne.grd', veg_file='veg.grd', wind_file='wind.txt', dt=10., tstop=20., grain_dist=1., grain_size=[.0003],
               output_vars=['zb', 'Ct'], process_vegetation=True, nx=c['nx'], ny=c['ny'])
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    m.update()
    return m


def grid(c, mon):
    t = tool(mon, 'setup', 'setup_tools.py')
    if t is None or not hasattr(t, 'create_grd'):
        return
    t.create_grd('.', c['nx'], c['ny'], x0=c['x0'], y0=c['y0'], dx=c['dx'], dy=c['dy'], alfa=c['alfa'])
    a = {f: np.loadtxt(f + '.grd') for f in ('x', 'y', 'z', 'ne', 'veg')}
    shape = (c['ny'] + 1, c['nx'] + 1)
    tag = '(%d x %d cells of %g x %g m, %g degrees)' % (c['nx'], c['ny'], c['dx'], c['dy'], c['alfa'])
    for k, v in a.items():
        mon.check(v.shape == shape, 'grid-size', lambda: '%s has shape %s %s' % (k, v.shape, tag))
    if any(v.shape != shape for v in a.values()):
        return
    mon.check(not a['z'].any() and not a['ne'].any() and not a['veg'].any(), 'grid-flat', 'bed, floor and vegetation are not flat and bare ' + tag)
    x, y = a['x'], a['y']
    tol = 1e-9 * (abs(x).max() + abs(y).max() + 1)
    mon.check(abs(x[0, 0] - c['x0']) < tol and abs(y[0, 0] - c['y0']) < tol, 'grid-corner', lambda: 'corner at %g, %g %s' % (x[0, 0], y[0, 0], tag))
    ang = np.deg2rad(270. - c['alfa'])
    for q, (dxx, dyy) in (('x', (c['dx'] * np.cos(ang), c['dx'] * np.sin(ang))), ('y', (-c['dy'] * np.sin(ang), c['dy'] * np.cos(ang)))):
        ax = 1 if q == 'x' else 0
        mon.close(np.diff(x, axis=ax), dxx, 'grid-cells', rtol=1e-7, atol=tol * 10, msg='x along the %s axis %s' % (q, tag))
        mon.close(np.diff(y, axis=ax), dyy, 'grid-cells', rtol=1e-7, atol=tol * 10, msg='y along the %s axis %s' % (q, tag))
    if abs((270. - c['alfa'] + 90.) % 360. - 90.) < 80. and c['ny'] > 1:
        m = load(c, mon)
        mon.close(m.s['ds'], c['dx'], 'grid-model', rtol=1e-5, msg='cross-shore cell size in the model ' + tag)
        mon.close(m.s['dn'], c['dy'], 'grid-model', rtol=1e-5, msg='alongshore cell size in the model ' + tag)
        mon.sig('loaded', c['alfa'] == 270.)
    mon.ev('grids')
    mon.sig('grid', c['dx'] < 1, c['dy'] < 1, int(c['alfa'] // 90), bool(c['x0']), bool(c['y0']))


def cone(c, mon):
    t = tool(mon, 'setup', 'setup_tools.py')
    if t is None or not hasattr(t, 'create_z_cone'):
        return
    mx, my = round(c['mid'][0] * c['nx'] * c['dx'], 3), round(c['mid'][1] * c['ny'] * c['dy'], 3)
    t.create_z_cone('.', c['nx'], c['ny'], c['height'], c['diameter'], mx, my, dx=c['dx'], dy=c['dy'])
    z = np.loadtxt('z.grd')
    X, Y = np.meshgrid(np.arange(c['nx'] + 1) * c['dx'], np.arange(c['ny'] + 1) * c['dy'])
    want = c['height'] * np.maximum(0., 1. - np.hypot(X - mx, Y - my) / (.5 * c['diameter']))
    mon.check(z.shape == want.shape, 'cone', lambda: 'bed of shape %s, grid of %s' % (z.shape, want.shape))
    if z.shape == want.shape:
        mon.close(z, want, 'cone', rtol=1e-9, atol=1e-9, msg='cone at (%g, %g) in cells of %g x %g m' % (mx, my, c['dx'], c['dy']))
    mon.ev('beds')
    mon.sig('cone', c['dx'] == c['dy'], c['nx'] == c['ny'], int((want > 0).sum()).bit_length())


def plots(c, mon):
    import matplotlib.pyplot as plt
    import netCDF4
    from aeolis.model import AeoLiSRunner
    t = tool(mon, 'visualization', 'plotting.py')
    if t is None:
        return
    cfg, arr = gen.build(c)
    cfg['output_vars'] = ['zb', 'Ct', 'uw', 'pickup']
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    AeoLiSRunner('aeolis.txt').run()
    plt.close('all')
    with netCDF4.Dataset('aeolis.nc') as nc:
        nc.set_auto_mask(False)
        data = {k: np.array(nc.variables[k][:]) for k in ('x', 'y', 'zb', 'Ct', 'uw', 'pickup')}
    nt = data['zb'].shape[0]
    a, b, f = c['which'][0] % nt, c['which'][1] % (c['ny'] + 1), c['which'][2] % c['nf']
    its = [a, nt - 1] if c['seed'] % 2 else a

    def field(v, it):
        d = data[v][it]
        return d if d.ndim == 2 else d[:, :, f]
    if hasattr(t, 'plot1d'):
        fig, ax = t.plot1d('aeolis.nc', itransects=b, itimes=its, ifrac=f, params=['zb', 'Ct', 'uw'])
        got = [(np.array(l.get_xdata()), np.array(l.get_ydata())) for l in ax.lines]
        want = [(data['x'][b], field(v, it)[b]) for it in np.atleast_1d(its) for v in ('zb', 'Ct', 'uw')]
        mon.check(len(got) == len(want), 'lines', lambda: '%d lines, expected %d' % (len(got), len(want)))
        for (gx, gy), (wx, wy) in zip(got, want):
            mon.close(gx, wx, 'lines', rtol=1e-6, atol=1e-9, msg='x of a plotted transect')
            mon.close(gy, wy, 'lines', rtol=1e-6, atol=1e-12, msg='values of a plotted transect')
        mon.ev('plots')
        plt.close('all')
    if hasattr(t, 'plot2d') and c['ny']:
        for v in ('zb', 'Ct'):
            lim = 'auto' if c['seed'] % 3 else [-1., 2.]
            fig, ax = t.plot2d('aeolis.nc', itimes=its, ifrac=f, param=v, clim=lim)
            it = int(np.atleast_1d(its)[-1])
            d = contents(fig)[0]
            shows(mon, d, data['x'].astype(float), data['y'].astype(float), field(v, it), 'plot of %s at time %d' % (v, it))
            qm = [q for q in ax.collections if hasattr(q, 'get_clim')][0]
            w = (field(v, it).min(), field(v, it).max()) if lim == 'auto' else lim
            mon.check(w[0] == w[1] or np.allclose(qm.get_clim(), w), 'colours', lambda: 'colours from %s, expected %s' % (qm.get_clim(), w))
            plt.close('all')
            if v == 'zb' and nt > 1:
                fig, ax = t.plot2d('aeolis.nc', itimes=0, param=v, delta=True, itimeDelta=nt - 1)
                shows(mon, contents(fig)[0], data['x'].astype(float), data['y'].astype(float), field(v, nt - 1) - field(v, 0), 'difference of zb between first and last time')
                plt.close('all')
        mon.ev('plots')
    mon.sig('plots', bool(c['ny']), c['nf'], np.size(its))


def run(c, mon):
    import matplotlib
    matplotlib.use('Agg')
    {'figures': figures, 'grid': grid, 'cone': cone, 'plots': plots}[c['mode']](c, mon)


warmup = gen.warmup
