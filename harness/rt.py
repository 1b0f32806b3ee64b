"""Runtime-monitoring core: monitors, case runner, replay files, evidence, known findings.

A property module provides

    ID            'C01'
    N_QUICK, N_THOROUGH   number of generated cases per tier
    RULE          how the cases are generated / counted (evidence text)
    case(rng, k)  -> JSON-serialisable case number k
    run(case, mon)  drives the real code on that case while oracles report into mon

Everything an oracle observes is counted in the monitor: `mon.ev(kind, n)` for observed
events, `mon.sig(...)` for the distinct non-trivial situations seen.
"""
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AEOLIS_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Stop(Exception):
    """A monitor gives up on the present case (not a verdict)."""


class CaseTimeout(BaseException):
    pass


class Mon(object):
    """What the oracles of one case (or many) observed."""

    MAXV = 8

    def __init__(self):
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.extremes = {}
        self.notes = {}

    # -- observation ---------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def sig(self, *a):
        self.sigs.add('/'.join(str(x) for x in a))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def worst(self, name, val):
        """Largest observed value of a residual (evidence only)."""
        try:
            val = float(val)
        except Exception:
            return
        if val != val:
            return
        if name not in self.extremes or val > self.extremes[name]:
            self.extremes[name] = val

    # -- verdict -------------------------------------------------------
    def check(self, ok, kind, msg=None, **detail):
        """One oracle evaluation. `kind` identifies the rule of the specification."""
        self.ev('eval:' + kind)
        if ok:
            return True
        self.fail(kind, msg, **detail)
        return False

    def fail(self, kind, msg=None, **detail):
        if callable(msg):
            msg = msg()
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(kind=kind, msg=str(msg)[:800] if msg is not None else kind,
                                        detail={k: _js(v) for k, v in detail.items()}))

    def close(self, a, b, kind, rtol=1e-9, atol=1e-12, msg='', **detail):
        """a and b agree element by element (NaN equals NaN, inf equals inf)."""
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.ev('eval:' + kind)
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            self.fail(kind, '%s shapes differ: %s vs %s' % (msg, a.shape, b.shape), **detail)
            return False
        with np.errstate(all='ignore'):
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            d = np.abs(a - b)
            tol = atol + rtol * np.maximum(np.abs(a), np.abs(b))
            bad = ~(same | ((d <= tol) & np.isfinite(d)))
        if a.size:
            fin = np.isfinite(d)
            if fin.any():
                self.worst('maxdiff:' + kind, d[fin].max())
        if bad.any():
            ix = tuple(int(v) for v in np.argwhere(bad)[0]) if a.ndim else ()
            self.fail(kind, '%s: %d of %d values differ; first at %s: got %r expected %r' % (
                msg, int(bad.sum()), a.size, ix, float(a[ix]), float(b[ix])), **detail)
            return False
        return True

    def finite(self, a, kind, msg=''):
        import numpy as np
        a = np.asarray(a, dtype=float)
        return self.check(bool(np.isfinite(a).all()), kind,
                          lambda: '%s: %d of %d values are not finite' % (msg, int((~np.isfinite(a)).sum()), a.size))

    def merge(self, other):
        for k, v in other.events.items():
            self.events[k] = self.events.get(k, 0) + v
        self.sigs |= other.sigs
        for s in other.samples:
            self.sample(s)
        for k, v in other.extremes.items():
            self.worst(k, v)
        for k, v in other.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def _js(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return v.tolist() if v.size <= 64 else dict(shape=list(v.shape), head=v.flatten()[:32].tolist())
        if isinstance(v, np.generic):
            return v.item()
    except Exception:
        pass
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:300]


# ---------------------------------------------------------------------------
# scratch directories

class scratch(object):
    """A private working directory, removed afterwards; cwd is restored."""

    def __enter__(self):
        self.old = os.getcwd()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix='aeolisvt_', dir=base)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


class quiet(object):
    """Swallow what the code under test prints (file-descriptor level stays untouched)."""

    def __enter__(self):
        import io
        self.o, self.e = sys.stdout, sys.stderr
        self.buf = io.StringIO()
        sys.stdout = sys.stderr = self.buf
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.w.__exit__(*a)
        return False

    def text(self):
        return self.buf.getvalue()


# ---------------------------------------------------------------------------
# known findings

def known_findings(pid):
    """Listed, unrepaired genuine defects: lines 'finding: property=ID kind=K[ match=TEXT] :: what'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('finding: property=%s ' % pid):
                continue
            head, _, what = line.partition(' :: ')
            f = dict(tok.split('=', 1) for tok in head.split()[1:])
            f['what'] = what
            out.append(f)
    return out


def match_known(v, known, case):
    for f in known:
        if f.get('kind') != v['kind']:
            continue
        m = f.get('match')
        if m and m.replace('_', ' ') not in v['msg'] and m not in v['msg']:
            continue
        c = f.get('case')
        if c and c != str(case.get('name')):
            continue
        return f
    return None


# ---------------------------------------------------------------------------
# running cases

def _code_frame(tb):
    """True if the exception left code of the repository, False if it is the harness's own."""
    last = None
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if fn.startswith(VERIF + os.sep):
            last = 'harness'
        elif fn.startswith(os.path.join(REPO, 'aeolis')):
            last = 'repo'
    return last == 'repo'


def run_case(mod, case, limit):
    import numpy as np
    mon = Mon()
    err = None

    def onalarm(*a):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        with scratch():
            with np.errstate(all='ignore'):
                with quiet():
                    mod.run(case, mon)
        mon.ev('cases')
    except Stop as e:
        mon.note('stopped: %s' % e)
    except CaseTimeout:
        mon.fail('terminates', 'case did not finish within %d s' % limit)
    except Exception as e:
        if _code_frame(sys.exc_info()[2]):
            tb = traceback.extract_tb(sys.exc_info()[2])
            fr = [f for f in tb if f.filename.startswith(os.path.join(REPO, 'aeolis'))][-1]
            mon.fail('no-crash', '%s: %s (in %s of %s)' % (type(e).__name__, str(e)[:300], fr.name,
                                                            os.path.basename(fr.filename)))
        else:
            err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    mon.worst('case_seconds', time.time() - t0)
    return mon, err


def case_rng(seed, pid, k):
    return random.Random('%s|%s|%s' % (seed, pid, k))


def _worker(args):
    mod, seed, ks, limit, deadline = args
    out = []
    for k in ks:
        if time.time() > deadline:
            out.append((k, None, None, 'deadline'))
            continue
        case = mod.case(case_rng(seed, mod.ID, k), k)
        case.setdefault('name', 'k%d' % k)
        mon, err = run_case(mod, case, limit)
        out.append((k, case, mon, err))
    return out


def setup_env():
    logging.disable(logging.CRITICAL)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')


def check_origin():
    import aeolis
    d = os.path.dirname(os.path.abspath(aeolis.__file__))
    if d != os.path.join(REPO, 'aeolis'):
        raise SystemExit('harness error: aeolis imported from %s' % d)


def main(mod, tier, seed, replay=None):
    import multiprocessing as mp
    t0 = time.time()
    check_origin()
    known = known_findings(mod.ID)
    limit = getattr(mod, 'CASE_LIMIT', 150)
    budget = getattr(mod, 'BUDGET_QUICK', 240) if tier == 'quick' else getattr(mod, 'BUDGET_THOROUGH', 780)
    os.makedirs(REPLAYS, exist_ok=True)

    if replay:
        data = json.load(open(replay))
        mon, err = run_case(mod, data['case'], limit)
        if err:
            print('HARNESS-ERROR', err)
            return 2
        for v in mon.violations:
            print('  %s: %s' % (v['kind'], v['msg']))
        if mon.violations:
            print('VIOLATION property=%s replay=%s' % (mod.ID, replay))
            return 1
        print('replay: property held, %d oracle evaluations' % sum(
            n for k, n in mon.events.items() if k.startswith('eval:')))
        return 0

    warm_mon = Mon()
    if hasattr(mod, 'warmup'):
        try:
            with quiet():
                mod.warmup()
        except Exception as e:
            warm_mon.note('warmup: %s' % type(e).__name__)

    n = mod.N_QUICK if tier == 'quick' else mod.N_THOROUGH
    nproc = min(getattr(mod, 'PROCS', 6), max(1, os.cpu_count() or 1), n)
    deadline = t0 + budget
    chunks = [list(range(i, n, nproc * 4)) for i in range(min(n, nproc * 4))]
    jobs = [(mod, seed, c, limit, deadline) for c in chunks]
    results = []
    if nproc > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc) as pool:
            for r in pool.imap_unordered(_worker_named, [(mod.__name__,) + j[1:] for j in jobs]):
                results.extend(r)
    else:
        for j in jobs:
            results.extend(_worker(j))
    results.sort(key=lambda r: r[0])

    tot = Mon()
    tot.merge(warm_mon)
    errors, skipped, bad, hits = [], 0, [], {}
    seen_cases, nontrivial, samples = set(), 0, []
    for k, case, mon, err in results:
        if mon is None:
            skipped += 1
            continue
        tot.merge(mon)
        key = json.dumps({a: b for a, b in case.items() if a != 'name'}, sort_keys=True, default=str)
        if mon.sigs and key not in seen_cases:
            nontrivial += 1
            if len(samples) < 3:
                samples.append(dict(case=case, observed=dict(sorted(mon.events.items())),
                                    situations=sorted(mon.sigs)[:12]))
        seen_cases.add(key)
        if err:
            errors.append((k, err))
        for v in mon.violations:
            f = match_known(v, known, case)
            if f:
                hits.setdefault(f['what'], 0)
                hits[f['what']] += 1
            else:
                bad.append((k, case, v))

    for e in getattr(mod, 'finish', lambda tier, tot: [])(tier, tot) or []:
        bad.append((-1, dict(name='finish'), e))

    rc = 0
    evals = sum(c for k, c in tot.events.items() if k.startswith('eval:'))
    for what, c in hits.items():
        print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (mod.ID, what, c))
    if bad:
        rc = 1
        seen = set()
        for k, case, v in bad:
            if v['kind'] in seen:
                continue
            seen.add(v['kind'])
            path = os.path.join(REPLAYS, '%s-%s.json' % (mod.ID, v['kind'].replace('/', '_').replace(' ', '_')))
            with open(path, 'w') as fp:
                json.dump(dict(property=mod.ID, seed=seed, tier=tier, k=k, case=case, violation=v), fp, indent=1)
            print('  [%s] %s: %s' % (case.get('name'), v['kind'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    done = len(results) - skipped
    if errors:
        print('HARNESS-ERROR in %d of %d cases; first (case %s): %s' % (len(errors), done, errors[0][0], errors[0][1]))
        if rc == 0 and (len(errors) > done // 2 or evals == 0):
            rc = 2
    if rc == 0 and (done == 0 or evals == 0):
        print('HARNESS-ERROR: nothing was observed')
        rc = 2

    ev = dict(property=mod.ID, tier=tier, seed=int(seed) if str(seed).isdigit() else 0,
              level='exploration',
              coverage=dict(evaluations=int(done), distinct_nontrivial=int(nontrivial),
                            rule=mod.RULE + ' Non-trivial: the monitors recorded at least one situation signature '
                                            'for a case that was not generated before.',
                            samples=samples or tot.samples or [sorted(tot.sigs)[:4]],
                            oracle_evaluations=int(evals), distinct_situations=len(tot.sigs),
                            cases_skipped_for_time=skipped,
                            harness_errors=len(errors), events=dict(sorted(tot.events.items())),
                            worst_observed=tot.extremes, notes=tot.notes,
                            distinct_examples=sorted(tot.sigs)[:40],
                            known_findings_seen=hits),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.tmp' % mod.ID)
    with open(tmp, 'w') as fp:
        json.dump(_js_deep(ev), fp, indent=1)
    os.replace(tmp, os.path.join(EVID, '%s.json' % mod.ID))
    print('%s tier=%s seed=%s: %d cases, %d oracle evaluations, %d distinct situations, %d violations, %.1f s' % (
        mod.ID, tier, seed, done, evals, len(tot.sigs), len(bad), time.time() - t0))
    return rc


def _worker_named(args):
    import importlib
    return _worker((importlib.import_module(args[0]),) + tuple(args[1:]))


def _js_deep(v):
    if isinstance(v, dict):
        return {str(k): _js_deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_js_deep(x) for x in v]
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return repr(v)
    return _js(v)
