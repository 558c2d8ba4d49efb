"""Run-time of the bounded exhaustive explorer.

A check module provides
    PID            property id
    BOUNDS         {tier: text}: what is enumerated
    cases(tier, seed) -> list of JSON-able cases, simplest first (this IS the bounded space)
    run(ctx, case)     executes the real code of /repo on the case and compares with the reference model
    setup()            (optional) imports / warms up; PREFORK=True runs it once before workers are forked
The explorer runs every case (never a sample), counts states / transitions / traces, and turns every
disagreement into a replay file:   python check.py C01 --replay out/replay/C01-0.json
"""
import os, sys

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
os.environ.setdefault('RAY_USAGE_STATS_ENABLED', '0')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import hashlib, json, logging, random, signal, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 8


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one case observes."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = 0
        self.fails, self.samples, self.counters = [], [], {}
        self.case, self.idx = None, None

    @staticmethod
    def _h(key):
        return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()

    def state(self, *key):
        """A distinct abstract state (configuration + history) reached."""
        h = self._h(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        """n executions of a real operation of the code whose result was judged."""
        self.transitions += n

    def trace(self, n=1):
        """n complete histories / runs compared end to end with the reference model."""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(self._h(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def fail(self, key, msg, **detail):
        self.fails.append(dict(key=key, msg=str(msg)[:2000], case=self.case, idx=self.idx,
                               detail={k: str(v)[:1500] for k, v in detail.items()}))

    def ok(self, cond, key, msg='', **detail):
        if not bool(cond):
            self.fail(key, msg, **detail)
        return bool(cond)

    def eq(self, got, exp, key, msg='', tol=1e-9):
        from mc.util import same
        good, why = same(got, exp, tol)
        if not good:
            self.fail(key, (msg + ' ' if msg else '') + why)
        return good


def _alarm(*_):
    raise CaseTimeout()


def repo_frame(tb):
    """innermost frame of the code under test -> stable signature 'file.py:function'"""
    sig = None
    for fr in traceback.extract_tb(tb):
        if '/pyforecaster/' in fr.filename:
            sig = '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return sig


class guard:
    """with guard(ctx, 'key'): calls into the code under test; an exception is a violation"""

    def __init__(self, ctx, key):
        self.ctx, self.key, self.failed = ctx, key, False

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or not issubclass(t, Exception):
            return False
        self.failed = True
        sig = repo_frame(tb) or 'harness'
        self.ctx.fail('%s:exception:%s@%s' % (self.key, t.__name__, sig), '%s: %s' % (t.__name__, e),
                      tb=''.join(traceback.format_exception(t, e, tb))[-1500:])
        return True


def run_one(mod, ctx, case, idx, case_timeout):
    import numpy as np
    ctx.case, ctx.idx = case, idx
    np.random.seed((ctx.seed * 1000003 + 17) % (2 ** 31))
    random.seed(ctx.seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case_timeout)
    try:
        mod.run(ctx, case)
    except CaseTimeout:
        ctx.fail('no-answer', 'the case did not finish within %d s' % case_timeout)
    except Exception as e:
        tb = e.__traceback__
        sig = repo_frame(tb) or 'oracle'
        ctx.fail('exception:%s@%s' % (type(e).__name__, sig), '%s: %s' % (type(e).__name__, e),
                 tb=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


_MOD = None
_READY = False


def quiet():
    import numpy as np
    warnings.filterwarnings('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    try:
        import tqdm
        os.environ['TQDM_DISABLE'] = '1'
    except ImportError:
        pass


def _worker(args):
    global _READY
    tier, seed, chunk, case_timeout = args
    if not _READY:
        quiet()
        if not getattr(_MOD, 'PREFORK', False) and hasattr(_MOD, 'setup'):
            _MOD.setup()
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        sys.stderr = devnull
        # a scratch working directory: code under test that writes relative files cannot touch /verif or /repo
        os.chdir(tempfile.mkdtemp(prefix='w', dir=os.environ['VERIF_SCRATCH']))
        _READY = True
    ctx = Ctx(_MOD.PID, tier, seed)
    for idx, case in chunk:
        run_one(_MOD, ctx, case, idx, case_timeout)
        if len(ctx.fails) > 200:
            break
    return (ctx.states, ctx.outcomes, ctx.transitions, ctx.traces, ctx.fails[:200], ctx.samples, ctx.counters, len(chunk))


def load_known(pid):
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                head, _, text = line[len('known:'):].partition('|')
                d = dict(t.split('=', 1) for t in head.split())
                if d.get('property') == pid:
                    res[d['key']] = text.strip()
    return res


def main(mod, argv):
    global _MOD
    _MOD = mod
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', 0)) or (os.cpu_count() or 4))
    ap.add_argument('--only', type=int, help='run a single case index')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = mod.PID
    t0 = time.time()
    budget = dict(quick=720, thorough=6 * 3600)[tier]
    case_timeout = getattr(mod, 'CASE_TIMEOUT', dict(quick=200, thorough=1200))[tier]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.environ['VERIF_SCRATCH'] = scratch
    if getattr(mod, 'JAX_CACHE', False):
        # identical programs are compiled once per run (the cache is keyed by the program and thrown away with the run)
        os.environ['JAX_COMPILATION_CACHE_DIR'] = os.path.join(scratch, 'jax')
        os.environ['JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS'] = '0'
        os.environ['JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES'] = '-1'
    try:
        return _main(mod, a, tier, seed, pid, t0, budget, case_timeout)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, a, tier, seed, pid, t0, budget, case_timeout):
    quiet()
    if a.replay:
        rec = json.load(open(a.replay))
        todo = [(rec.get('idx', 0), rec['case'])]
        seed = rec.get('seed', seed)
    else:
        todo = list(enumerate(json.loads(json.dumps(mod.cases(tier, seed)))))
        if a.only is not None:
            todo = [todo[a.only]]
    agg = Ctx(pid, tier, seed)
    done = 0
    complete = True
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError as FTimeout
    try:
        if getattr(mod, 'PREFORK', False) and hasattr(mod, 'setup'):
            mod.setup()
        jobs = min(a.jobs, getattr(mod, 'MAX_JOBS', 64), max(1, len(todo)))
        nchunks = min(len(todo), jobs * getattr(mod, 'CHUNKS_PER_JOB', 12)) or 1
        chunks = [todo[i::nchunks] for i in range(nchunks)]
        ex = ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork'))
        futs = [ex.submit(_worker, (tier, seed, c, case_timeout)) for c in chunks]
        try:
            for f in as_completed(futs, timeout=max(30, budget - (time.time() - t0))):
                st, oc, tr, tc, fl, sm, cn, n = f.result()
                agg.states |= st
                agg.outcomes |= oc
                agg.transitions += tr
                agg.traces += tc
                agg.fails += fl
                agg.samples += sm
                done += n
                for k, v in cn.items():
                    agg.counters[k] = agg.counters.get(k, 0) + v
        except FTimeout:
            complete = False
        if not complete:
            for p_ in list(getattr(ex, '_processes', {}).values()):
                p_.kill()
        ex.shutdown(wait=complete, cancel_futures=True)
    except Exception as e:  # a dead worker or code that cannot even be imported
        agg.case, agg.idx = None, -1
        agg.fail('run-aborted:%s' % type(e).__name__, traceback.format_exc()[-1500:])
    if not complete and not agg.fails:
        print('NOTE property=%s time budget reached: %d of %d cases explored' % (pid, done, len(todo)))
    known = load_known(pid)
    by_key = {}
    for f in sorted(agg.fails, key=lambda f: (f['idx'], f['key'])):
        by_key.setdefault(f['key'], f)
    new = [f for k, f in by_key.items() if k not in known]
    for k, text in known.items():
        if k in by_key:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, text, k))
    if a.replay:
        for f in by_key.values():
            print('REPLAY %s: %s' % (f['key'], f['msg']))
            for k, v in f['detail'].items():
                print('   %s: %s' % (k, v))
        if not by_key:
            print('REPLAY: the property held on this case')
        return 1 if new else 0
    wall = time.time() - t0
    agg.samples = agg.samples[:6]
    if not agg.samples:
        agg.samples = [dict(case=todo[0][1])] if todo else ['none']
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=dict(states=len(agg.states), transitions=agg.transitions,
                            traces_validated_against_impl=agg.traces,
                            cases=done, cases_in_space=len(todo),
                            distinct_observed_outcomes=len(agg.outcomes),
                            exhaustive=bool(complete and done == len(todo)),
                            bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                            counters=agg.counters, samples=agg.samples),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=len(new), wall_s=round(wall, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        pid, tier, done, len(todo), len(agg.states), agg.transitions, agg.traces, len(agg.outcomes), wall))
    if new:
        rdir = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, f in enumerate(new[:MAX_REPORT]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            json.dump(dict(property=pid, seed=seed, tier=tier, idx=f['idx'], case=f['case'], key=f['key'], msg=f['msg'],
                           detail=f['detail'], how='python check.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
            print('  [%s] %s' % (f['key'], f['msg'][:300].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
