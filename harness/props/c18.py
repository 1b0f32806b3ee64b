"""Output statistics."""
import numpy as np
from harness import gen

ID = 'C18'
N_QUICK, N_THOROUGH = 150, 3000
RULE = ('Random runners with random output variables and statistics (in every notation) driven through random schedules of steps, '
        'fast-forwards, clearing and non-clearing requests; the complete history of each variable is recorded and its statistics '
        'recomputed at every request.')
ASSUMPTIONS = ['only statistics that were asked for in the configuration are judged']
VARS = ('zb', 'Ct', 'Cu', 'uw', 'udir', 'mass', 'pickup', 'q', 'zs', 'Hs', 'ustars0', 'ustar', 'uth', 'w_init', 'moist', 'theta_stat',
        'scan_w', 'taus', 'Rti', 'dzb', 'w_bed', 'qs', 'qn', 'un', 'ustarn0')
STATS = ('avg', 'sum', 'var', 'min', 'max')


def case(rng, k):
    c = gen.base_case(rng, nf=gen.pick(rng, 1, 2, 3), nl=gen.pick(rng, 1, 2))
    c['ny'] = min(c['ny'], 3)
    c['nx'] = min(c['nx'], 12)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'calm')
    c['dt'] = gen.pick(rng, 1., 10., 60.)
    c['steps'] = 40
    vs = rng.sample(VARS, rng.randint(2, 6))
    out = []
    for v in vs:
        out.append(v)
        for e in rng.sample(STATS, rng.randint(0, 3)):
            out.append('%s%s%s' % (v, gen.pick(rng, '_', '_', '.'), e))
    if rng.random() < .3:
        out = [o for o in out if '_' in o or '.' in o] or ['zb_avg', 'zb']
    rng.shuffle(out)
    if len(out) == 1:
        out.append('zb' if out[0] != 'zb' else 'Ct')
    cfg = dict(output_vars=out, accfac=gen.pick(rng, 1., 1., 10.), scheme=gen.pick(rng, 'euler_backward', 'euler_forward'))
    ty = rng.sample(STATS, rng.randint(0, 3)) if rng.random() < .6 else []
    if ty:
        cfg['output_types'] = ty
    if rng.random() < .4:
        cfg['process_tide'] = cfg['process_wave'] = cfg['process_moist'] = True
        c['series'] = {'tide': [.5, 1., 3.], 'wave': [1., 6.]}
    if rng.random() < .3:
        cfg['process_avalanche'] = True
    c['cfg'] = cfg
    ops = []
    for i in range(rng.randint(5, 16)):
        q = rng.random()
        if q < .6:
            ops.append(['step', gen.pick(rng, -1, -1, round(c['dt'] * rng.uniform(.3, 1.5), 2))])
        elif q < .67:
            ops.append(['skip', -round(rng.uniform(2, 50), 1)])
        elif q < .8:
            ops.append(['ask', 0])
        elif q < .87:
            ops.append(['askclear', 0])
        elif q < .95:
            ops.append(['plain', gen.pick(rng, 0, 0, 1)])
        else:
            ops.append(['clear', 0])
    ops += [['step', -1], ['ask', 0]]
    c['ops'] = ops
    return c


def requested(cfg, s):
    want = {}
    for o in cfg['output_vars']:
        if o in s:
            v, e = o, None
        else:
            i = max(o.rfind('_'), o.rfind('.'))
            v, e = o[:i], o[i + 1:]
        want.setdefault(v, set())
        if e:
            want[v].add(e)
    for v in want:
        want[v] |= set(cfg.get('output_types', []))
    return want


def reference(h, e, shape):
    n = len(h)
    if e == 'min':
        return np.min(h, axis=0) if n else np.full(shape, np.inf)
    if e == 'max':
        return np.max(h, axis=0) if n else np.full(shape, -np.inf)
    if e == 'sum':
        return np.sum(h, axis=0) if n else np.zeros(shape)
    if e == 'avg':
        return np.mean(h, axis=0) if n else np.zeros(shape)
    return np.var(h, axis=0, ddof=1) if n > 1 else np.zeros(shape)


def run(c, mon):
    from aeolis.model import AeoLiSRunner
    cfg, arr = gen.write_case(c)
    m = AeoLiSRunner('aeolis.txt')
    m.initialize()
    want = requested(cfg, m.s)
    r = np.random.RandomState(c['seed'] % (2 ** 31))
    hist, clear = [], False
    acc = cfg['accfac']

    def value(v):
        if v == 'q':
            return np.hypot(m.s['qs'], m.s['qn'])
        return m.s[v] / acc if v in ('Ct', 'Cu') else np.array(m.s[v], float)

    def ask(clr, tag):
        names = [(v, e) for v in sorted(want) for e in sorted(want[v])]
        for n, (v, e) in enumerate(names):
            shape = m.s[v].shape
            h = [q[v] for q in hist]
            with np.errstate(all='ignore'):
                ref = reference(h, e, shape)
            big = max([1e-300] + [float(np.nanmax(abs(x[np.isfinite(x)]), initial=0.)) for x in h])
            for got, how in ((m.get_var('%s_%s' % (v, e), clear=clr), 'underscore'), (m.get_var('%s.%s' % (v, e), clear=clr), 'dot'),
                             (m.get_statistic(v, e), 'direct')):
                atol = 1e-12 * big if e != 'var' else 1e-11 * big ** 2
                if not np.isfinite(ref).all() and h and not all(np.isfinite(x).all() for x in h):
                    continue
                mon.close(got, ref, 'statistic', rtol=1e-9, atol=atol + 1e-300, msg='%s of %s (%s) over %d steps %s' % (e, v, how, len(h), tag))
                mon.check(np.shape(got) == shape, 'statistic-shape', lambda: 'shape of %s of %s' % (e, v))
            mon.sig(v, e, min(len(h), 4), 'acc' if acc != 1 else '')
        return bool(names)

    for n, (op, a) in enumerate(c['ops']):
        tag = 'at operation %d' % n
        if op in ('step', 'skip'):
            if clear:
                hist, clear = [], False
            m.update(a)
            hist.append({v: value(v) for v in want})
            if op == 'skip':
                clear = True  # a fast-forward starts afresh
            mon.ev('steps')
        elif op == 'ask':
            before = clear
            ask(False, tag)
            clear = False
            if before:
                # a request that does not clear revokes the clearing of the previous one, but not that of a fast-forward
                clear = m.dt < -1
        elif op == 'askclear':
            if ask(True, tag):
                clear = True
        elif op == 'plain':
            for v in want:
                b = value(v)
                mon.close(m.get_var(v, clear=bool(a)), b, 'instant', rtol=1e-12, atol=0, msg='%s %s' % (v, tag))
            clear = bool(a) or m.dt < -1
        elif op == 'clear':
            m.output_clear()
            hist = []
        mon.ev('op:' + op)


warmup = gen.warmup
