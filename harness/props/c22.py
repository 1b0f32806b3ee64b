"""Repeatability and isolation of model instances."""
import atexit
import copy
import os
import pickle
import shutil
import signal
import socket
import subprocess
import sys
import tempfile

import numpy as np
from harness import gen, rt, trace

ID = 'C22'
N_QUICK, N_THOROUGH = 110, 2200
RULE = ('Random models of all processes run alone and compared bit by bit with the same model run again, interleaved step by step '
        'with other models, run after other models were tampered with, with shuffled configuration lines, in a fresh process with '
        'another hash seed, and (for random vegetation) from the same random state; package-level tables compared before and after.')
ASSUMPTIONS = ['bitwise equality on one machine with one set of libraries']
MODES = ('again', 'interleave', 'after', 'interleave', 'tamper', 'after', 'order', 'interleave', 'random', 'calls', 'after')


def case(rng, k):
    c = dict(mode=MODES[k % len(MODES)])
    if k % 32 == 5:
        c['mode'] = 'process'
    c['models'] = [model(rng, c['mode']) for _ in range(3 if c['mode'] == 'interleave' and rng.random() < .4 else 2)]
    if rng.random() < .3:
        c['models'][1] = dict(copy.deepcopy(c['models'][0]), umax=17.3)     # nearly the same model
    if c['mode'] == 'after' and rng.random() < .85:
        c['models'][1] = similar(rng, c['models'][0])
    c['seed'] = rng.randrange(10 ** 9)
    return c


def model(rng, mode):
    c = gen.base_case(rng)
    c['nx'] = min(c['nx'], 14)
    c['ny'] = min(c['ny'], 4)
    c['dt'] = gen.pick(rng, 1., 60., 300.)
    c['steps'] = rng.randint(2, 6)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'const')
    cfg = dict(accfac=gen.pick(rng, 1., 1., 3.), solver=gen.pick(rng, 'trunk', 'trunk', 'steadystate', 'pieter'),
               process_avalanche=rng.random() < .4)
    s = {}
    if rng.random() < .6:
        s.update(tide=[.3, 1., 3.], wave=[1., 6.])
        for p in ('process_tide', 'process_wave', 'process_runup', 'process_moist', 'process_mixtoplayer', 'process_wet_bed_reset'):
            cfg[p] = rng.random() < .6
        cfg['Tbedreset'] = 5000.
        if cfg['process_moist'] and rng.random() < .5:
            s['meteo'] = 1
            cfg['method_moist_process'] = 'surf_moisture'
            cfg['process_groundwater'] = rng.random() < .7
            cfg['dt_gw'] = c['dt'] / 2.
    if rng.random() < .4 or mode == 'random':
        s['veg'] = .8
        cfg.update(V_ver=5., germinate=gen.pick(rng, .5, 5.) if mode == 'random' else 0., lateral=gen.pick(rng, 1., 20.) if mode == 'random' else 0.,
                   vegshear_type=gen.pick(rng, 'okin', 'raupach') if not c['ny'] else 'raupach')
        cfg['veg_min_elevation'] = -10.
    if rng.random() < .2:
        s['fence'] = 1.
    if rng.random() < .25:
        s['ne'] = .02
    if rng.random() < .4:
        cfg['process_shear'] = True
        if c['ny']:
            cfg.update(dx=c['dx'], dy=c['dy'], buffer_width=10.)
        cfg['process_separation'] = rng.random() < .4
    c['series'], c['cfg'] = s, cfg
    return c


def similar(rng, m):
    """A model of the same size that differs in one thing only (what a cache may be blind to)"""
    m = copy.deepcopy(m)
    what = gen.pick(rng, 'k', 'bed', 'dx', 'wind', 'z', 'grain', 'direction', 'layer', 'tide', 'origin', 'slope')
    cfg = m['cfg']
    if m['ny'] and rng.random() < .6:
        what = 'origin'
    if rng.random() < .6 or what == 'origin':
        cfg['process_shear'] = True
        if m['ny']:
            cfg.update(dx=m['dx'], dy=m['dy'], buffer_width=10.)
    if what == 'k':
        cfg.update(k=.01, method_roughness='constant')
    elif what == 'z':
        cfg['z'] = 4.
    elif what == 'bed':
        m['zoff'] += .37
        m['amp'] *= 1.4
    elif what == 'dx':
        m['dx'] = 2. if m['dx'] != 2. else 3.
    elif what == 'wind':
        m['umax'] *= .8
    elif what == 'grain':
        m['seed'] += 1
    elif what == 'direction':
        m['udir'] -= 12.
    elif what == 'layer':
        m['layer'] *= 2.
    elif what == 'tide':
        m['series'] = dict(m['series'], tide=[.6, .8, 2.])
        cfg['process_tide'] = True
    elif what == 'origin':
        o = m.get('org') or [0., 0.]
        m['org'] = gen.pick(rng, [-35., 120.], [.3, -.4], [o[0] + 3 * m['dx'], o[1] - 2 * m['dy']], [o[0] + 8 * m['dx'], o[1] + 16 * m['dy']])
    else:
        m['slope'] *= .5
    m['differs'] = what
    return m


def frozen(m):
    return (m.t, {k: np.array(v) for k, v in m.s.items() if isinstance(v, np.ndarray) and v.dtype.kind in 'fciub'})


def start(c, where, shuffle=None):
    from aeolis.model import AeoLiS
    os.makedirs(where, exist_ok=True)
    old = os.getcwd()
    os.chdir(where)
    try:
        cfg, arr = gen.build(c)
        gen.write_arrays(arr, cfg)
        gen.write_config(cfg, shuffle=shuffle)
        m = AeoLiS('aeolis.txt')
        m.initialize()
    finally:
        os.chdir(old)
    return m


def alone(c, where, shuffle=None, mon=None):
    m = start(c, where, shuffle)
    out = [frozen(m)]
    for _ in range(c['steps']):
        m.update()
        out.append(frozen(m))
        if mon:
            mon.ev('steps')
    return out


def equal(mon, got, ref, kind, tag):
    for i, ((t, a), (u, b)) in enumerate(zip(got, ref)):
        bad = sorted(k for k in set(a) | set(b) if k not in a or k not in b or a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes()
                     and not np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind in 'fc'))
        if not mon.check(t == u and not bad, kind, lambda: '%s: step %d differs in %s (time %r, %r)' % (tag, i, bad[:6], t, u)):
            return
    mon.check(len(got) == len(ref), kind, 'number of steps')


def tables():
    from aeolis import constants
    return {k: copy.deepcopy(v) for k, v in vars(constants).items() if k.isupper()}


def deep_equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and not isinstance(b, np.ndarray):
        return type(a) == type(b) and len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) == type(b) and a == b


CHILD = '''
import sys, pickle
sys.path.insert(0, %r)
from harness import rt
rt.setup_env()
import numpy as np
np.seterr(all='ignore')
from harness.props import c22
c = pickle.load(open('case.pkl', 'rb'))
with rt.quiet():
    out = c22.alone(c, 'child')
pickle.dump(out, open('out.pkl', 'wb'))
'''


ZYGOTE = []


def zygote():
    """A process forked off before any case: each request is computed by a fork of it (clean, without start-up costs)."""
    sock = os.path.join(tempfile.mkdtemp(prefix='c22'), 's')
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock)
    srv.listen(64)
    parent = os.getpid()
    pid = os.fork()
    if pid:
        srv.close()
        ZYGOTE.append((sock, pid))
        atexit.register(lambda: os.getpid() == parent and close(sock, pid))
        return
    try:
        os.chdir('/')
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        srv.settimeout(5.)
        while os.getppid() == parent:
            try:
                con, _ = srv.accept()
            except socket.timeout:
                continue
            if os.fork() == 0:
                con.settimeout(None)
                with con.makefile('rwb') as fp:
                    c, where = pickle.load(fp)
                    try:
                        with rt.quiet():
                            out = alone(c, where)
                    except Exception as e:
                        out = repr(e)
                    pickle.dump(out, fp)
                    fp.flush()
                os._exit(0)
            con.close()
    finally:
        os._exit(0)


def close(sock, pid):
    try:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    except OSError:
        pass
    shutil.rmtree(os.path.dirname(sock), ignore_errors=True)


def clean(c, where):
    with socket.socket(socket.AF_UNIX) as con:
        con.connect(ZYGOTE[0][0])
        with con.makefile('rwb') as fp:
            pickle.dump((c, os.path.abspath(where)), fp)
            fp.flush()
            out = pickle.load(fp)
    if isinstance(out, str):
        raise RuntimeError('clean process: ' + out)
    return out


def run(c, mon):
    import random
    if not ZYGOTE:
        zygote()
    before = tables()
    mode = c['mode']
    ms = c['models']
    r = random.Random(c['seed'])
    state = None
    if mode == 'random':
        np.random.seed(c['seed'] % (2 ** 31))
    else:
        state = np.random.get_state()
    ref = alone(ms[0], 'a', mon=mon)
    if state is not None and not ms[0]['cfg'].get('V_ver'):
        now = np.random.get_state()
        mon.check(now[2] == state[2] and np.array_equal(now[1], state[1]), 'no-random', 'a model without random processes draws random numbers')
    if mode == 'random':
        np.random.seed(c['seed'] % (2 ** 31))
        equal(mon, alone(ms[0], 'b'), ref, 'repeat', 'same model from the same random state')
    elif mode == 'again':
        for i in range(2):
            equal(mon, alone(ms[0], 'b%d' % i, mon=mon), ref, 'repeat', 'same model run again')
    elif mode == 'after':
        equal(mon, alone(ms[1], 'b', mon=mon), clean(ms[1], 'c'), 'after', 'model after another one (differing in %s) and in a clean process' % ms[1].get('differs', 'all'))
        equal(mon, ref, clean(ms[0], 'd'), 'after', 'model after earlier ones and in a clean process')
        mon.ev('clean processes', 2)
    elif mode == 'order':
        equal(mon, alone(ms[0], 'b', r, mon=mon), ref, 'order', 'configuration lines in another order')
    elif mode == 'interleave':
        refs = [ref] + [alone(m, 'ref%d' % i) for i, m in enumerate(ms[1:])]
        late = r.random() < .5
        run_ = [start(m, 'i%d' % i) for i, m in enumerate(ms) if i == 0 or not late]
        out = [[frozen(m)] for m in run_]
        todo = [i for i, m in enumerate(ms) for _ in range(m['steps'])]
        r.shuffle(todo)
        for n, i in enumerate(todo):
            while i >= len(run_):
                run_.append(start(ms[len(run_)], 'i%d' % len(run_)))
                out.append([frozen(run_[-1])])
            run_[i].update()
            out[i].append(frozen(run_[i]))
            mon.ev('steps')
            if r.random() < .2:      # looking at another instance changes nothing
                for k in ('zb', 'mass', 'Ct', 'nx', 'dt'):
                    run_[r.randrange(len(run_))].get_var(k)
        for i in range(len(run_)):
            equal(mon, out[i], refs[i], 'interleaved', 'model %d of %d stepped alternately' % (i, len(ms)))
        mon.ev('switches', sum(a != b for a, b in zip(todo, todo[1:])))
    elif mode == 'tamper':
        m = start(ms[1], 't')
        m.update()
        for k in list(m.s):
            if isinstance(m.s[k], np.ndarray) and m.s[k].dtype.kind == 'f':
                m.s[k][...] = r.uniform(-5, 5)
        for k in list(m.p):
            if isinstance(m.p[k], float):
                m.p[k] = 17.
            elif isinstance(m.p[k], list):
                m.p[k].append('tampered')
            elif isinstance(m.p[k], np.ndarray) and m.p[k].dtype.kind == 'f':
                m.p[k][...] = -3.
        for k in ('accfac', 'Cb', 'dt', 'output_vars'):
            m.set_var(k, 5. if k != 'output_vars' else ['x'])
        try:
            m.finalize()
        except Exception:
            pass
        equal(mon, alone(ms[0], 'b', mon=mon), ref, 'isolated', 'new model after another one was tampered with')
    elif mode == 'calls':
        # requests, whatever they are, do not influence the run
        m = start(ms[0], 'b')
        out = [frozen(m)]
        for _ in range(ms[0]['steps']):
            for k in r.sample(sorted(k for k in m.s if isinstance(m.s[k], np.ndarray)), 12):
                m.get_var(k)
                m.get_var_shape(k), m.get_var_rank(k), m.get_var_type(k)
            m.get_var_count(), m.get_current_time(), m.get_end_time(), m.get_start_time(), m.dimensions()
            m.update()
            out.append(frozen(m))
        equal(mon, out, ref, 'requests', 'model asked about its state between steps')
    elif mode == 'process':
        with open('case.pkl', 'wb') as fp:
            pickle.dump(ms[0], fp)
        env = dict(os.environ, PYTHONHASHSEED=str(c['seed'] % 1000), PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', CHILD % rt.VERIF], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError('child: %s' % p.stderr.decode()[-600:])
        with open('out.pkl', 'rb') as fp:
            equal(mon, pickle.load(fp), ref, 'process', 'same model in another process')
        mon.ev('processes')
    after = tables()
    bad = [k for k in before if not deep_equal(before[k], after.get(k))]
    mon.check(not bad, 'tables', lambda: 'package tables %s changed by running models' % bad)
    on = sorted(k[8:] for k in ms[0]['cfg'] if k.startswith('process_') and ms[0]['cfg'][k] is True)
    mon.sig(mode, ms[0]['cfg']['solver'], '2d' if ms[0]['ny'] else '1d', len(ms), *(on + sorted(ms[0]['series'])))


def warmup():
    if not ZYGOTE:
        import aeolis.model  # noqa: F401
        gen.warmup()
        zygote()
