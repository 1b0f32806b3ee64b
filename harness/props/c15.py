"""Sand fences."""
import numpy as np
from harness import gen, trace

ID = 'C15'
N_QUICK, N_THOROUGH = 60, 1200
RULE = ('Random 1-D and 2-D models with random fences (absent, low, tall, scattered, lines), winds from any direction, fences '
        'buried by rising and exposed by sinking beds imposed between steps; fence heights tracked by a reference ledger, wind '
        'before and after the fences compared with a twin without them, with the Okin model (1-D) and with wake geometry (2-D).')
ASSUMPTIONS = ['2-D wakes are judged outside a margin of two cells around their exact extent']
N2 = ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun', 'fence_height', 'fence_top', 'zb', 'x', 'y', 'udir')


def case(rng, k):
    c = gen.base_case(rng, '2d' if k % 5 < 2 else '1d', nf=1, nl=1, layer=.05, grain='1d',
                      profile=gen.pick(rng, 'flat', 'beach', 'bumps'))
    c['zoff'] = round(rng.uniform(1.5, 5.), 2)
    c['dx'] = gen.pick(rng, 1., 2., 4.)
    c['dy'] = c['dx'] if c['ny'] else c['dy']
    if c['ny']:
        c['nx'], c['ny'] = rng.randint(12, 22), rng.randint(8, 14)
        c['dx'] = c['dy'] = gen.pick(rng, 2., 4., 5.)
    c['udir'] = round(gen.pick(rng, 270., 90., rng.uniform(0, 360), rng.uniform(200, 340)), 1)
    c['wind'] = gen.pick(rng, 'const', 'gust', 'calm', 'turn')
    c['umax'] = round(rng.uniform(3, 18), 1)
    c['dt'] = gen.pick(rng, 10., 60.)
    c['steps'] = rng.randint(2, 4) if c['ny'] else rng.randint(3, 8)
    c['rot'] = gen.pick(rng, 0., 0., round(rng.uniform(-80, 80), 1)) if c['ny'] else 0.
    cfg = dict(process_fences=True, fence_file='fence.txt', okin_c1_fence=round(rng.uniform(.2, 1.), 3),
               okin_initialred_fence=round(rng.uniform(.1, .8), 3), dx=c['dx'], dy=c['dx'])
    if rng.random() < .25:
        cfg['process_shear'] = True
    c['layout'] = gen.pick(rng, 'line', 'line', 'scatter', 'none', 'low', 'post')
    c['h'] = round(rng.uniform(.3, 1.4), 2)
    if c['ny'] and c['layout'] == 'line' and rng.random() < .7:
        c['rot'] = 0.
        c['udir'] = gen.pick(rng, 270., 90., 277., 84., 262.)
        c['wind'] = 'const'
        c['ny'] = 14
    c['impose'] = rng.random() < .6
    c['cfg'] = cfg
    return c


def fence(c, shape):
    r = np.random.RandomState(c['seed'] + 5)
    f = np.zeros(shape)
    ny, nx = shape
    if c['layout'] == 'line':
        i = r.randint(2, nx - 2)
        f[ny // 4:max(1, ny - ny // 4), i] = c['h']
    elif c['layout'] == 'scatter':
        f = np.where(r.rand(*shape) < .15, r.uniform(0, 1.7, shape).round(3), 0.)
    elif c['layout'] == 'low':
        f[:, nx // 2] = .09
        f[:, nx // 3] = .05
    elif c['layout'] == 'post':
        f[r.randint(ny // 3, max(ny // 3 + 1, 2 * ny // 3)), r.randint(nx // 3, max(nx // 3 + 1, 2 * nx // 3))] = c['h']
    return f


def okin(x, h, sgn, c1, r0):
    mult = np.zeros(x.shape)
    for i in np.flatnonzero(h > 0):
        d = (x - x[i]) * sgn
        q = np.where((d >= 0) & (d < 20 * h[i]), (1 - r0) * np.exp(-c1 * d / h[i]), 0.)
        mult += np.where(q < 1e-5, 0., np.minimum(q, 1.))
    return 1 - np.minimum(mult, 1.)


def make(c, fh):
    from aeolis.model import AeoLiS
    cfg, arr = gen.build(c)
    if fh is None:
        cfg['process_fences'] = False
        cfg.pop('fence_file')
    else:
        arr['fence'] = fh
    gen.write_arrays(arr, cfg)
    gen.write_config(cfg)
    m = AeoLiS('aeolis.txt')
    m.initialize()
    return m


def run(c, mon):
    shape = (c['ny'] + 1, c['nx'] + 1)
    f0 = fence(c, shape)
    m = make(c, f0)
    p = m.p
    r = np.random.RandomState(c['seed'] + 6)
    top = m.s['zb'] + f0
    alive = f0 >= .1
    mon.close(m.s['fence_top'], top, 'top', msg='initial fence tops')
    two = c['ny'] > 0
    with trace.Tracer({'fences': N2}) as tr:
        dug = False
        for i in range(c['steps']):
            if c['impose'] and i:
                # now and then dug out until the fence falls, and buried again
                d = r.uniform(.9, 1.6) if dug else r.uniform(-.4, .6) if r.rand() < .6 else -r.uniform(1., 1.7)
                dug = d < -.9
                z = m.s['zb'] + d * r.uniform(.7, 1, shape)
                m.set_var('zb', z)
            m.update()
            tag = 'step %d' % i
            ev = tr.take()
            if len(ev) != 1:
                mon.note('no fence stage')
                return
            _, b, a, _ = ev[0]
            mon.ev('steps')
            # heights: what sticks out of the bed, unless too little or blown out once
            h = top - b['zb']
            mon.close(a['fence_top'], top, 'top', msg='fence tops %s' % tag)
            near = (abs(h - .1) < 1e-9) | (abs(h - 1.5) < 1e-9)
            want = np.where(alive & (h >= .1) & (top >= .1), h, 0.)
            want = np.where(want > 1.5, 0., want)
            if near.any():
                return
            mon.close(a['fence_height'], want, 'height', rtol=1e-9, atol=1e-12, msg='fence height %s' % tag)
            gone = alive & (h > 1.5) & (top >= .1)
            alive = alive & ~gone
            if gone.any():
                mon.sig('blown-out')
            if (alive & (h < .1)).any():
                mon.sig('buried')
            # wind
            ub, ua = np.hypot(b['ustars'], b['ustarn']), np.hypot(a['ustars'], a['ustarn'])
            cross = b['ustars'] * a['ustarn'] - b['ustarn'] * a['ustars']
            dot = b['ustars'] * a['ustars'] + b['ustarn'] * a['ustarn']
            mon.check((abs(cross) <= 1e-9 * (ub * ua + 1e-12)).all() and (dot >= 0).all(), 'direction', lambda: 'fences turn the wind %s' % tag)
            mon.close(a['tau'], p['rhoa'] * ua ** 2, 'stress', rtol=1e-8, atol=1e-12, msg='shear stress behind fences %s' % tag)
            for q, v in (('taus', 'ustars'), ('taun', 'ustarn')):
                mon.close(a[q], p['rhoa'] * ua * a[v], 'stress', rtol=1e-8, atol=1e-12, msg='%s behind fences %s' % (q, tag))
            floor = 0.01 if not two else 0.
            mon.check((ua <= np.maximum(ub, floor) * (1 + 1e-9) + 1e-15).all(), 'no-speedup', lambda: 'fences speed up the wind by %g %s' % ((ua - ub).max(), tag))
            fh = a['fence_height']
            if not (fh > 0).any():
                mon.check((abs(ua - np.where(ub > 0, np.maximum(ub, floor), 0)) <= 1e-9 * (1 + ub)).all(), 'no-fence-no-effect', lambda: 'wind reduced without fences %s by up to %g' % (tag, (ub - ua).max()))
                mon.sig('no fence', c['layout'], two)
                continue
            if ub.max() <= 0:
                mon.sig('calm')
                continue
            if not two:
                sg = np.sign(np.sin(-np.deg2rad(b['udir'][0, 0])))
                mult = okin(b['x'][0], fh[0], sg, p['okin_c1_fence'], p['okin_initialred_fence'])
                want = np.where(ub[0] > 0, np.maximum(ub[0] * mult, .01), 0.)
                if abs(np.sin(np.deg2rad(b['udir'][0, 0]))) > 1e-9:
                    mon.close(ua[0], want, 'okin', rtol=1e-9, atol=1e-12, msg='wind in the lee of fences %s' % tag)
                    mon.sig('1d', c['layout'], 'E' if sg < 0 else 'W', int(fh.max() * 3))
                continue
            # 2-D: geometry of the wake
            k = np.unravel_index(ub.argmax(), ub.shape)
            e = np.array([b['ustars'][k], b['ustarn'][k]]) / ub[k]
            # the shear perturbation may bend the wind: use the direction of the undisturbed wind
            ud = np.deg2rad(b['udir'][0, 0])
            e = np.array([-np.sin(ud), -np.cos(ud)])
            X, Y, D = b['x'], b['y'], c['dx']
            with np.errstate(all='ignore'):
                ratio = np.where(ub > 1e-6, ua / ub, 1.)
            lee = np.zeros(shape, bool)
            for j, n in zip(*np.nonzero(fh > 0)):
                along = (X - X[j, n]) * e[0] + (Y - Y[j, n]) * e[1]
                lat = abs((X - X[j, n]) * e[1] - (Y - Y[j, n]) * e[0])
                lee |= (along > -2.2 * D) & (along < 20 * fh[j, n] + 2.2 * D) & (lat < 2.2 * D)
            mon.check((abs(ratio[~lee] - 1) < 1e-9).all(), 'wake-extent', lambda: 'wind reduced by %g away from any fence (direction %.1f) %s' % (
                1 - ratio[~lee].min(), np.rad2deg(ud), tag))
            inner = np.zeros(shape, bool)
            inner[2:-2, 2:-2] = True
            at = (fh > .2) & inner & (ub > 1e-6)
            if at.any():
                mon.check((ratio[at] < .97).all(), 'reduces', lambda: 'wind at a fence reduced to %.3f only %s' % (ratio[at].max(), tag))
            # the lee of a line of fences across the wind (at least half of what the fence's crest alone causes)
            if c['layout'] == 'line' and abs(e[0]) > .97 and not c['rot']:
                dn = int(np.sign(e[0]))
                for j, n in zip(*np.nonzero(at)):
                    if j - 2 < 0 or j + 2 >= shape[0] or not (fh[j - 2:j + 3, n] > .2).all() or not 2 <= n + dn < shape[1] - 2:
                        continue
                    low = .5 * (1 - p['okin_initialred_fence']) * np.exp(-p['okin_c1_fence'] * 1.5 * D / (.7 * fh[j - 2:j + 3, n].min()))
                    if low > .005:
                        mon.check(ratio[j, n + dn] < 1 - low, 'lee', lambda: 'wind right behind a fence of %.2f m reduced to %.4f only %s' % (
                            fh[j, n], ratio[j, n + dn], tag))
                        mon.ev('lee')
            mon.sig('2d', c['layout'], int(np.rad2deg(ud) % 360 // 30), int(fh.max() * 3), 'rot' if c['rot'] else '')


warmup = gen.warmup
