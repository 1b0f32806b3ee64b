"""Restart."""
import glob
import os
import pickle
import shutil

import numpy as np
from harness import gen, trace

ID = 'C20'
N_QUICK, N_THOROUGH = 110, 2200
RULE = ('Random complete runs with any combination of processes (deterministic ones), writing restart files at random intervals, '
        'some broken off by an exception at a random step; resumed in a fresh runner from any of the restart files and compared, '
        'step by step and variable by variable, with the uninterrupted run.')
ASSUMPTIONS = ['no random draws (germination and lateral growth of vegetation off)', 'the resumed run uses the configuration it was started with']


class Broken(Exception):
    pass


def case(rng, k):
    two = rng.random() < .45
    c = gen.base_case(rng, '2d' if two else '1d')
    c['nx'] = min(c['nx'], 16)
    c['ny'] = min(c['ny'], 4)
    if c['ny'] == 1:
        c['ny'] = 2
    c['dt'] = gen.pick(rng, 10., 60., 60., 300.)
    c['steps'] = rng.randint(4, 12)
    c['wind'] = gen.pick(rng, 'gust', 'turn', 'ramp', 'calm')
    cfg = dict(restart=round(gen.pick(rng, .5, 1., 2., 2.5, 3.) * c['dt'], 3), accfac=gen.pick(rng, 1., 1., 5.),
               solver=gen.pick(rng, 'trunk', 'trunk', 'trunk', 'steadystate', 'pieter'), scheme='euler_backward')
    if rng.random() < .2:
        cfg.update(scheme='euler_forward', solver='trunk')
        f = .2 / c['dt']
        c['dt'] *= f
        cfg['restart'] *= f
    if rng.random() < .3:
        cfg['max_bedlevel_change'] = gen.pick(rng, 1e-4, 1e-3)
    series = {}
    if rng.random() < .6:
        series.update(tide=[.3, 1., 3.], wave=[1., 6.])
        for p in ('process_tide', 'process_wave', 'process_runup', 'process_moist', 'process_mixtoplayer', 'process_wet_bed_reset'):
            cfg[p] = rng.random() < .6
        if cfg['process_moist'] and rng.random() < .5:
            series['meteo'] = 1
            cfg['method_moist_process'] = 'surf_moisture'
            cfg['process_groundwater'] = cfg['process_scanning'] = rng.random() < .7
            if cfg['process_groundwater']:
                cfg['dt_gw'] = cfg.get('dt_gw', c['dt'] / 3.)
        if cfg['process_moist']:
            cfg['th_moisture'] = True
        if cfg['process_wet_bed_reset']:
            cfg['Tbedreset'] = 5000.
    if rng.random() < .3:
        series['veg'] = .8
        cfg.update(veg_min_elevation=-10., V_ver=gen.pick(rng, 2., 20.), _sed=0) if False else cfg.update(V_ver=gen.pick(rng, 2., 20.), germinate=0., lateral=0.)
    if rng.random() < .2:
        series['fence'] = 1.
    if rng.random() < .25:
        series['ne'] = .02
    cfg['process_avalanche'] = rng.random() < .4
    if rng.random() < .35:
        cfg['process_shear'] = True
        if two:
            cfg.update(dx=c['dx'], dy=c['dy'], buffer_width=10.)
        cfg['process_separation'] = rng.random() < .4
    c['series'] = series
    c['cfg'] = cfg
    c['abort'] = rng.randint(1, c['steps']) if rng.random() < .4 else -1
    c['which'] = rng.random()
    c['start'] = gen.pick(rng, 0., 0., 0., 50.)
    if c['start']:
        cfg['tstart'] = c['start']
        cfg['tstop'] = c['start'] + c['dt'] * (c['steps'] + .5)
    c['elsewhere'] = rng.random() < .5
    # hotstart files: of the whole run, or put in place before it is resumed (restart files hold the entire state)
    c['hot'] = gen.pick(rng, None, None, 'always', 'late')
    c['hotvars'] = rng.sample(('zb', 'Ct', 'moist', 'rhoveg', 'mass', 'uth', 'salt', 'thlyr'), rng.randint(1, 2))
    if rng.random() < .25:
        c['hook'] = True
        c['cfg'] = dict(c.get('cfg', {}), callback='hook.py:push')
    return c


def hotstart(c, s):
    r = np.random.RandomState(c['seed'] % 2 ** 31)
    for k in c['hotvars']:
        v = np.asarray(s[k])
        np.savetxt(k + '.hotstart', (v * r.uniform(.9, 1.1, v.shape) + .01 * r.uniform(0, 1, v.shape)).reshape((v.shape[0], -1)))


def runner(log, abort=-1, mon=None):
    from aeolis.model import AeoLiSRunner

    class Runner(AeoLiSRunner):
        calls = 0

        def output_write(self):
            if not log:
                # (before the first call of the callback)
                log.append((self.t, self.dt, trace.snap(self.s), {k: np.copy(v) for k, v in self.l.items()}))
            super(Runner, self).output_write()

        def update(self, dt=-1):
            if self.calls == abort:
                raise Broken()
            self.calls += 1
            super(Runner, self).update(dt)
            log.append((self.t, self.dt, trace.snap(self.s), {k: np.copy(v) for k, v in self.l.items()}))
            if mon:
                mon.ev('steps')
    return Runner('aeolis.txt')


def same(mon, a, b, kind, tag):
    names = sorted(k for k in set(a) | set(b) if np.asarray(a.get(k, 0)).dtype.kind in 'fciub')
    bad = []
    for k in names:
        if k not in a or k not in b:
            bad.append(k)
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            bad.append(k)
        elif x.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                if not (np.isclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)).all():
                    bad.append(k)
        elif not (x == y).all():
            bad.append(k)
    return mon.check(not bad, kind, lambda: '%s: %s' % (tag, ', '.join('%s (by %s)' % (
        k, np.nanmax(abs(np.asarray(a[k], float) - np.asarray(b[k], float))) if k in a and k in b and np.shape(a[k]) == np.shape(b[k]) else 'shape')
        for k in bad[:6])))


HOOK = '''
import numpy as np
def push(model):
    zb = model.get_var('zb', clear=False)
    zb[:, 1:4] += .002 * np.cos(model.t / 50.)
    model.set_var('zb', zb)
'''


def run(c, mon):
    if c.get('hook'):
        with open('hook.py', 'w') as fp:
            fp.write(HOOK)
    cfg, arr = gen.write_case(c)
    if c['hot'] == 'always':
        from aeolis.model import AeoLiS
        m = AeoLiS('aeolis.txt')
        m.initialize()
        hotstart(c, m.s)
    full = []
    m = runner(full, mon=mon)
    m.run()
    files = sorted(glob.glob('aeolis.r*'))
    # the schedule of restart files
    last, due = 0., []
    for t, _, _, _ in full:
        if t - last >= cfg['restart']:
            due.append(t)
            last = t
    names = sorted(set('aeolis.r%010d' % int(t) for t in due))
    mon.check(files == names, 'schedule', lambda: 'restart files %s, due %s' % (files, names))
    at = {e[0]: e for e in full}
    times = {}
    for f in files:
        with open(f, 'rb') as fp:
            st = pickle.load(fp)
        t = st['t']
        # several within a second share a name: the last is kept
        mon.check(t in at and t in due and int(t) == int(f[-10:]), 'schedule', lambda: 'restart file %s holds the state at %g' % (f, t))
        if t in at:
            same(mon, dict(st['s']), at[t][2], 'contents', 'state in restart file at %g' % t)
            times[f] = t
        mon.ev('restart files')
    if not files:
        mon.sig('none')
        return
    f = files[int(c['which'] * len(files)) % len(files)]
    if c['abort'] >= 0:
        for g in files:
            os.remove(g)
        part = []
        m = runner(part, c['abort'])
        try:
            m.run()
        except Broken:
            mon.ev('broken off')
        for a, b in zip(part, full):
            same(mon, a[2], b[2], 'repeatable', 'second run at %g' % a[0])
        files = sorted(glob.glob('aeolis.r*'))
        if not files:
            mon.sig('broken before restart file')
            return
        f = files[-1]
    os.rename(f, 'saved.restart')
    with open('saved.restart', 'rb') as fp:
        t0 = pickle.load(fp)['t']
    if c['elsewhere']:
        # resumed from a copy, without what the first run left behind
        os.makedirs('again')
        for g in glob.glob('*.txt') + glob.glob('*.hotstart') + glob.glob('hook.py'):
            shutil.copy(g, 'again')
        shutil.copy('saved.restart', 'again')
        os.chdir('again')
    if c['hot'] == 'late':
        hotstart(c, at[t0][2])
    # the configuration, and with it the place of the output, is that of the restart file
    home = os.path.dirname(os.path.abspath(m.configfile))
    for g in set(map(os.path.abspath, glob.glob('aeolis.r*') + glob.glob(os.path.join(home, 'aeolis.r*')))):
        os.remove(g)
    res = []
    m = runner(res, mon=mon)
    m.run(restartfile='saved.restart' if c['seed'] % 2 else os.path.abspath('saved.restart'))
    want = [e for e in full if e[0] >= t0]
    if len(want) < 2:
        mon.check(len(res) <= 1, 'times', 'steps beyond the end of the run')
        mon.sig('resumed at the end')
        return
    mon.check([e[0] for e in res] == [e[0] for e in want], 'times', lambda: 'resumed at %g the run steps through %s, uninterrupted %s' % (
        t0, [e[0] for e in res][:6], [e[0] for e in want][:6]))
    for a, b in zip(res, want):
        if a[0] != b[0] or not same(mon, a[2], b[2], 'resumed', 'run resumed at %g, now %g' % (t0, a[0])):
            break
        same(mon, a[3], b[3], 'resumed-previous', 'previous state of run resumed at %g, now %g' % (t0, a[0]))
    # restart files of the resumed run are those of the first
    later = [t for t in due if t > t0]
    found = {os.path.basename(g): g for d in ('.', home) for g in glob.glob(os.path.join(d, 'aeolis.r*'))}
    files = sorted(found)
    names = sorted(set('aeolis.r%010d' % int(t) for t in later))
    mon.check(files == names, 'resumed-schedule', lambda: 'run resumed at %g writes restart files %s, the uninterrupted run %s' % (t0, files, names))
    for g in set(files) & set(names):
        with open(found[g], 'rb') as fp:
            st = pickle.load(fp)
        if mon.check(st['t'] in later and int(st['t']) == int(g[-10:]), 'resumed-schedule', lambda: 'restart file %s of the resumed run holds the state at %g' % (g, st['t'])):
            same(mon, dict(st['s']), at[st['t']][2], 'contents', 'state in restart file of the resumed run at %g' % st['t'])
    on = sorted(k[8:] for k in cfg if k.startswith('process_') and cfg[k])
    mon.sig(cfg['scheme'][6:9] + cfg['solver'], '2d' if c['ny'] else '1d', 'aborted' if c['abort'] >= 0 else '', 'hot ' + str(c['hot']), 'hook' if c.get('hook') else '', *(on + sorted(c['series'])))


warmup = gen.warmup
