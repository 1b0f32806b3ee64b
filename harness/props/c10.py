"""Clock and time step."""
import numpy as np
from harness import gen, trace, rt

ID = 'C10'
N_QUICK, N_THOROUGH = 180, 3600
RULE = ('Random schedules of model updates (configured, given and fast-forwarded time steps in any order) over explicit and '
        'implicit schemes, calms and storms, bed-level-change limits, Courant limits, acceleration factors, and full runs '
        'to the end time; after every call the clock and the step it took are compared with the specification.')
ASSUMPTIONS = []


def case(rng, k):
    c = gen.base_case(rng, wind=gen.pick(rng, 'const', 'gust', 'calm', 'calm', 'turn'))
    c['umax'] = round(rng.uniform(4, 25), 2)
    c['dt'] = gen.pick(rng, .5, 1., 10., 60., 900.)
    c['steps'] = rng.randint(3, 12)
    cfg = dict(scheme=gen.pick(rng, 'euler_backward', 'euler_forward', 'crank_nicolson'))
    if rng.random() < .4:
        cfg['accfac'] = gen.pick(rng, 2., 5., 20.)
    if rng.random() < .5:
        cfg['max_bedlevel_change'] = gen.pick(rng, .00001, .0001, .001, .01)
        c['umax'] = round(rng.uniform(10, 28), 2)
    if cfg['scheme'] == 'euler_forward':
        cfg['CFL'] = gen.pick(rng, 1., 1., .5, .1, 0.)
        if cfg['CFL'] == 0:
            c['dt'] = gen.pick(rng, .01, .05)
    if rng.random() < .3 and c['ny']:
        c['rot'] = round(rng.uniform(-60, 60), 1)
    if rng.random() < .2:
        c['stretch'] = 1.1
    if rng.random() < .2:
        cfg['process_avalanche'] = True
    T = c['dt'] * c['steps'] * cfg.get('accfac', 1.)
    c['plan'] = [gen.pick(rng, -1, -1, -1, round(rng.uniform(.1, 3.) * c['dt'], 4), -round(rng.uniform(1.1, 50.), 3), 0., -.5) for _ in range(c['steps'])]
    if rng.random() < .3:
        c['plan'] = [-1] * c['steps']
    if rng.random() < .2:
        cfg['tstart'] = round(rng.uniform(1, 100), 1)
    c['cfg'] = cfg
    c['full'] = k % 6 == 0
    return c


STATE = ('zb', 'mass', 'Ct', 'moist', 'rhoveg', 'zne', 'x', 'y', 'ds')


def run(c, mon):
    m = gen.make_model(c)
    p = m.p
    tol = dict(rtol=1e-9, atol=1e-9)
    mon.close(m.get_start_time(), c['cfg'].get('tstart', 0.), 'start', msg='start time')
    mon.close(m.get_current_time(), c['cfg'].get('tstart', 0.), 'start', msg='initial time')
    mon.close(m.get_end_time(), p['tstop'], 'end', msg='end time')
    prev, change = None, 0.
    with trace.Tracer({'bed': ('zb',), 'hydro': ('zb',), 'threshold': ('zb',)}) as tr:
        for i, dt in enumerate(c['plan']):
            t = m.t
            before = trace.snap(m.s, STATE)
            tr.take()
            m.update(dt)
            log = tr.take()
            adv = m.t - t
            tag = 'update %d (dt %g) at t=%g' % (i, dt, t)
            mon.ev('updates')
            mon.check(adv > 0 and np.isfinite(adv), 'forward', lambda: 'clock moves by %r in %s' % (adv, tag))
            mon.close(m.get_current_time(), m.t, 'clock', msg='reported time')
            calm = np.sum(m.s['uw']) == 0
            if dt < -1:
                mon.close(adv, -dt, 'fast-forward', msg='time skipped by %s' % tag, **tol)
                for k, v in before.items():
                    mon.close(m.s[k], v, 'fast-forward-inert', rtol=1e-9, atol=1e-7, msg='%s after %s' % (k, tag))
                mon.check(not log, 'fast-forward-inert', 'processes ran during %s' % tag)
                prev = None
                mon.sig('skip', p['scheme'])
                continue
            want = dt if dt > 0 else p['dt']
            lim = []
            if p['scheme'] == 'euler_forward' and p['CFL'] > 0:
                q = abs(m.s['uws']).max(), abs(m.s['uwn']).max()
                if c.get('rot'):
                    a = np.deg2rad(-c['rot'])
                    us, un = m.s['uws'], m.s['uwn']
                    q = abs(us * np.cos(a) - un * np.sin(a)).max(), abs(us * np.sin(a) + un * np.cos(a)).max()
                inv = q[0] / m.s['ds'].min() + q[1] / m.s['dn'].min()
                if inv > 0:
                    lim.append(p['CFL'] / inv)
                else:
                    want = min(want, 1.)
                    mon.close(adv / p['accfac'], want, 'calm-step', msg='time step without wind, %s' % tag, **tol)
                    for k in ('zb', 'mass', 'Ct'):
                        mon.close(m.s[k], before[k], 'calm-inert', rtol=1e-9, atol=1e-9, msg='%s after %s' % (k, tag))
                    prev, change = want, change
                    mon.sig('calm-explicit')
                    continue
            if p['max_bedlevel_change'] != 999. and prev and change > 0:
                lim.append(prev * p['max_bedlevel_change'] / change)
            ref = min([want] + lim)
            mon.close(adv / p['accfac'], ref, 'step', rtol=1e-6, atol=1e-12, msg='time step of %s (asked %g, limits %s)' % (tag, want, lim))
            mon.check(adv / p['accfac'] <= want * (1 + 1e-9), 'step-bound', 'longer step than asked for in %s' % tag)
            prev = adv / p['accfac']
            change = abs(m.s['zb'] - before['zb']).max()
            if calm:
                mon.check(change == 0, 'calm-inert', 'bed moves without wind in %s' % tag)
            mon.sig(p['scheme'], 'asked' if ref == want else 'courant' if len(lim) and ref == lim[0] and p['scheme'] == 'euler_forward' else 'bedlimit',
                    'given' if dt > 0 else 'configured', 'calm' if calm else 'wind', 'acc' if p['accfac'] != 1 else '', 'rot' if c.get('rot') else '')
    if c['full']:
        # a run to the end ends, soon after the end time
        cfg, arr = gen.build(c)
        T = c['dt'] * 6 * p['accfac']
        m.set_var('tstop', m.t + T)
        n = 0
        t = m.t
        while m.t < m.get_end_time():
            m.update()
            mon.check(m.t > t, 'forward', 'clock stands still at %r' % t)
            if m.t - t < 1e-6 * T and np.sum(m.s['uw']) == 0:
                mon.fail('stalls', 'time step of %g s without wind in a run of %g s' % (m.t - t, T))
                return
            t = m.t
            n += 1
            if n > 1500:
                break
        if n <= 1500:
            mon.check(m.t < m.get_end_time() + p['dt'] * p['accfac'] * (1 + 1e-9), 'ends', 'run ends at %g, end time %g' % (m.t, m.get_end_time()))
            mon.sig('full', p['scheme'])


warmup = gen.warmup
