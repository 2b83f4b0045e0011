"""exhaustive explorer: shards a deterministic list of scenarios over worker
processes, runs the code of /repo in lockstep with a reference model on each of
them and reports every disagreement.  Nothing here is random."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_PER_SCENARIO = 60  # seconds of cpu time, normal scenarios need < 3
MEM = 4 << 30
REL = 1e-9


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(Violation):
    pass


def _alarm(*_):
    raise Hang('code does not terminate within %d s of cpu time'
               % CPU_PER_SCENARIO)


class Ctx(object):
    """counters of one scenario"""

    def __init__(self):
        self.evals = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.cases = set()
        self.samples = []
        self.known = []

    # -- counting
    def state(self, *key):
        """returns True if the (model) state is new in this scenario"""
        k = repr(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def case(self, *key):
        self.cases.add(repr(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    # -- checking
    def ok(self, cond, msg, *args, key=None):
        self.evals += 1
        if not cond:
            raise Violation(msg % args if args else msg, key)

    def close(self, got, want, msg, *args, rel=REL, abs_=1e-12, key=None):
        self.evals += 1
        if not near(got, want, rel, abs_):
            m = msg % args if args else msg
            raise Violation('%s: got %r, expected %r' % (m, got, want), key)

    def same(self, got, want, msg, *args, key=None):
        self.evals += 1
        if not got == want:
            m = msg % args if args else msg
            raise Violation('%s: got %r, expected %r' % (m, got, want), key)

    def raises(self, exc, func, msg, *args, key=None):
        self.evals += 1
        try:
            r = func()
        except exc:
            return
        m = msg % args if args else msg
        raise Violation('%s: no error raised but %r returned' % (m, r), key)


def near(got, want, rel=REL, abs_=1e-12):
    if got is None or want is None:
        return got is want
    if isinstance(got, bool) or isinstance(want, bool):
        return got == want
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and \
            all(near(g, w, rel, abs_) for g, w in zip(got, want))
    try:
        g, w = float(got), float(want)
    except (TypeError, ValueError):
        return got == want
    if math.isnan(g) or math.isnan(w):
        return math.isnan(g) and math.isnan(w)
    if math.isinf(g) or math.isinf(w):
        return g == w
    return abs(g - w) <= abs_ + rel * max(abs(g), abs(w))


def run_one(mod, sc):
    """run one scenario -> (ctx, violation dict or None)"""
    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_PER_SCENARIO)
    bad = None
    try:
        mod.run(sc, ctx)
    except Violation as e:
        bad = {'scenario': sc, 'key': e.key or skey(sc), 'message': str(e)}
    except MemoryError:
        bad = {'scenario': sc, 'key': skey(sc), 'message': 'out of memory'}
    except RecursionError:
        bad = {'scenario': sc, 'key': skey(sc),
               'message': 'endless recursion: ' + last_frames()}
    except Exception as e:  # the code under test has to work on valid input
        bad = {'scenario': sc, 'key': skey(sc),
               'message': 'unexpected %s: %s | %s' % (
                   type(e).__name__, e, last_frames())}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx, bad


def last_frames(n=4):
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' < '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno,
                                    f.name) for f in reversed(tb[-n:]))


def skey(sc):
    return json.dumps(sc, sort_keys=True, default=str)


def _work(args):
    pid, tier, idx = args
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    warnings.simplefilter('ignore')
    sys.stdout = open(os.devnull, 'w')
    mod = load(pid)
    scs = scenarios(mod, tier)
    out = dict(evals=0, transitions=0, traces=0, states=0, cases=0, n=0,
               samples=[], bad=[], known=[])
    for i in idx:
        ctx, bad = run_one(mod, scs[i])
        out['n'] += 1
        out['evals'] += ctx.evals
        out['transitions'] += ctx.transitions
        out['traces'] += ctx.traces
        out['states'] += len(ctx.states)
        out['cases'] += len(ctx.cases)
        out['known'] += ctx.known
        if ctx.samples and len(out['samples']) < 2:
            out['samples'].append({'scenario': scs[i], 'case': ctx.samples[0]})
        if bad:
            bad['history'] = [j for j in idx if j <= i]
            out['bad'].append(bad)
            if len(out['bad']) >= min(3, int(os.environ.get('MC_STOP', 3))):
                break
    # plain data only, as not each date object can be read back
    return json.loads(json.dumps(out, default=str))


def load(pid):
    return importlib.import_module('mc.props.' + pid.lower())


_SC = {}


def scenarios(mod, tier):
    k = mod.__name__, tier
    if k not in _SC:
        _SC[k] = list(mod.scenarios(tier))
    return _SC[k]


def known_findings(pid):
    """lines `finding: property=<id> key=<key> | <what fails>`"""
    res = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                key, what = line.split(' key=', 1)[1].split(' | ', 1)
                res[key.strip()] = what.strip()
    return res


def check(pid, tier, seed):
    jobs = int(os.environ.get('MC_JOBS', 8))
    most = int(os.environ.get('MC_STOP', 24))  # stop after that many alarms
    t0 = time.time()
    mod = load(pid)
    scs = scenarios(mod, tier)
    n = len(scs)
    nchunk = max(1, min(n, 48))
    thin = int(os.environ.get('MC_THIN', 1))  # tools/mutate.py only
    chunks = [(pid, tier, list(range(k * thin, n, nchunk * thin)))
              for k in range(nchunk)]
    tot = dict(evals=0, transitions=0, traces=0, states=0, cases=0, n=0)
    samples, bads = [], []
    done = 0
    ctxm = mp.get_context('fork')
    with ctxm.Pool(jobs, maxtasksperchild=1) as pool:
        for out in pool.imap_unordered(_work, chunks):
            done += 1
            for k in tot:
                tot[k] += out[k]
            if len(samples) < 3:
                samples += out['samples']
            bads += out['bad']
            if len(bads) >= most:
                pool.terminate()
                break
    known = known_findings(pid)
    new = [b for b in bads if b['key'] not in known]
    hit = {b['key'] for b in bads if b['key'] in known}
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    cov = {'scenarios': tot['n'], 'scenarios_total': n,
           'exhaustive': done == nchunk and not bads and tot['n'] == n,
           'bounds': mod.BOUNDS, 'rule': mod.RULE, 'samples': samples[:3],
           'oracle_comparisons': tot['evals']}
    if mod.LEVEL == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['evals'],
                   distinct_nontrivial=tot['cases'])
        cov.pop('oracle_comparisons')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': mod.ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d/%d scenarios, %s, %.1f s' % (
        pid, tier, tot['n'], n, ', '.join('%s %d' % (k, tot[k]) for k in (
            'states', 'transitions', 'traces', 'evals', 'cases') if tot[k]),
        time.time() - t0))
    if not new:
        return 0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    seen = set()
    for i, b in enumerate(sorted(new, key=lambda b: len(skey(b['scenario'])))):
        sig = b['message'][:60]
        if sig in seen or len(seen) >= 5:
            continue
        seen.add(sig)
        path = os.path.join(ROOT, 'replays', '%s-%d.json' % (pid, len(seen)))
        with open(path, 'w') as f:
            json.dump(dict(b, property=pid, tier=tier), f, indent=1,
                      default=str)
        print('  %s: %s' % (skey(b['scenario'])[:300], b['message'][:900]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay(path):
    """re-run the scenario alone; if it passes then with its full history"""
    b = json.load(open(path))
    mod = load(b['property'])
    scs = scenarios(mod, b['tier'])
    _, bad = run_one(mod, scs[b['history'][-1]])
    if not bad:
        for i in b['history']:
            _, bad = run_one(mod, scs[i])
            if bad and i == b['history'][-1]:
                break
    if bad:
        print(bad['message'])
        print('VIOLATION property=%s replay=%s' % (b['property'], path))
        return 1
    print('property=%s holds on %s' % (b['property'], path))
    return 0


def digest(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:16]
