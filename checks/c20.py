"""C20: online adaptive forecasters: all operation sequences, all single-row perturbations, all phase-aligned splits of the history."""
import copy
import io
import itertools
import contextlib
import pickle
import numpy as np
import pandas as pd
from mc import sched

PID = 'C20'
PREFORK = True
BOUNDS = dict(quick='Fourier smoothing / Kalman / mixture models: window 2..5 x steps 1..4 x harmonics x periods; all operation sequences of length 4 over 6 operations; every row perturbed; '
                    'every prefix; every phase-aligned split; signals of every period dividing the window; exponential smoothing wrapper on 3 structures; chains of parameters set afterwards, one or two at a time',
              thorough='windows to 7, operation sequences of length 5, more seeds')
ASSUMPTIONS = ['fitting advances the stored state and forecasting does not (as the comments in the code say); a second fit without re-initialisation continues from the stored state by design',
               'phase-aligned: the part already fitted is a whole number of windows']


def setup():
    import pyforecaster.forecasting_models.fast_adaptive_models as F
    f = build(dict(cls='FK', m=4, n=2, h=2, per=2))
    f.fit(frame(sig(12)))
    build(dict(cls='multi', m=4, n=2, h=2, per=2, k=2, base='FK')).fit(frame(sig(12)))


Q = np.array([0.1, 0.5, 0.9])


def build(c):
    import pyforecaster.forecasting_models.fast_adaptive_models as F
    kw = dict(target_name='y', n_sa=c['n'], m=c.get('m'), q_vect=Q, optimize_hyperpars=False, verbose=False, periodicity=c.get('per'))
    if c['cls'] == 'F':
        return F.Fourier_es(alpha=c.get('alpha', 0.7), omega=c.get('omega', 0.6), n_harmonics=c['h'], **kw)
    if c['cls'] == 'FK':
        return F.FK(alpha=0.7, omega=c.get('omega', 0.6), n_harmonics=c['h'], r=c.get('r', 0.1), q=c.get('q', 0.1), **kw)
    if c['cls'] == 'es':
        from pyforecaster.forecasting_models.statsmodels_wrapper import ExponentialSmoothing
        return ExponentialSmoothing('y', Q, n_sa=c['n'], trend=c['trend'], seasonal=c['seas'])
    with contextlib.redirect_stdout(io.StringIO()):
        return F.FK_multi(n_predictors=c['k'], base_predictor=getattr(F, {'F': 'Fourier_es', 'FK': 'FK'}[c['base']]), optimize_submodels_hyperpars=False, **kw)


def sig(n, seed=1):
    rng = np.random.default_rng(seed)
    return 4 + 2 * np.sin(np.arange(n) * 1.3) + rng.normal(size=n)


def frame(y, start=0, cov=False):
    df = pd.DataFrame({'y': np.asarray(y, float)}, index=pd.date_range('2021-01-01', periods=len(y), freq='1h') + pd.Timedelta(hours=start))
    if cov:
        df.insert(0, 'c', np.arange(len(y)) * 1.0)
    return df


def configs(tier):
    q = tier == 'quick'
    res = []
    for m in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7):
        for n in (1, 2, 3, 4):
            if n > m:
                continue
            for h in sorted({1, max(1, m // 2)}):
                for per in sorted({None, m} - {n}, key=str):
                    res.append(dict(cls='F', m=m, n=n, h=h, per=per))
                    res.append(dict(cls='FK', m=m, n=n, h=h, per=per))
        for k, base in itertools.product((1, 2, 3), ('F', 'FK')):
            for n in (1, 2, 3):
                if n < m and int(np.linspace(1, m, k + 1)[1]) >= 2:
                    res.append(dict(cls='multi', m=m, n=n, h=3, per=None, k=k, base=base))
    return res


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    cf = configs(tier)
    for c in cf:
        res.append(dict(kind='causal', c=c))
    pick = [c for c in cf if c['m'] in (3, 4) and c['n'] == 2]
    for c in pick + [dict(cls='es', n=2, trend=t, seas=s) for t, s in ((None, None), (True, None), (None, 3))]:
        first = range(6)
        for a in first:
            res.append(dict(kind='ops', c=c, first=a, depth=4 if q else 5) if c['cls'] != 'es' else dict(kind='ops', c=c, first=a, depth=2))
    for m in (2, 3, 4, 5, 6):
        for n in (1, 2, 3, 5):
            res.append(dict(kind='periodic', m=m, n=n))
    for m, n, h in itertools.product((2, 3, 4, 5), (1, 2, 3), (1, 2)):
        if n <= m and h <= m // 2:
            res.append(dict(kind='split', m=m, n=n, h=h))
    for m in (3, 4):
        res.append(dict(kind='flat', m=m))
    for cls in ALT:
        names = sorted(ALT[cls])
        for a, b in [(a, None) for a in names] + list(itertools.combinations(names, 2)):
            res.append(dict(kind='renew', cls=cls, pars=[a, b] if b else [a]))
    for cls in ('F', 'FK', 'multi'):
        res.append(dict(kind='tune', cls=cls))
    for n, (t, s) in itertools.product((1, 2, 3), ((None, None), (True, None), (None, 3))):
        res.append(dict(kind='wrapper', c=dict(cls='es', n=n, trend=t, seas=s)))
    return res


def run(ctx, case):
    import warnings
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


def states(f):
    r = [copy.deepcopy(getattr(f, 'states', None))]
    for m in getattr(f, 'models', None) or []:
        r.append(copy.deepcopy(m.states))
    return r


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def residuals(x, hat, n):
    y = x['y'].values
    return np.array([[y[j + 1 + s] - hat[j, s] for s in range(n)] for j in range(len(y) - n)])


def causal(ctx, case):
    c = case['c']
    n, m = c['n'], c['m']
    info = str(c)
    x = frame(sig(3 * m + n + 1), cov=True)
    x0 = x.copy()
    f = build(c)
    fresh = build(c)
    f.fit(x)
    ctx.ok(x.equals(x0), 'causal:input', info)
    if c['cls'] != 'multi':
        ctx.eq(np.asarray(f.err_distr), np.quantile(residuals(x, fresh.predict(x).values, n), Q, axis=0).T, 'causal:errors', info, tol=1e-8)
    te = frame(sig(2 * m + 2, seed=5), len(x), cov=True)
    t0 = te.copy()
    s0 = states(f)
    p = f.predict(te)
    ctx.ok(te.equals(t0), 'causal:input', info)
    ctx.ok(same(states(f), s0), 'causal:state', info + ': forecasting changed the stored state')
    size = len(pickle.dumps(f))
    for _ in range(2):
        f.predict(te)
    ctx.ok(len(pickle.dumps(f)) == size, 'causal:grows', '%s: the forecaster grows from %d to %d bytes by forecasting' % (info, size, len(pickle.dumps(f))))
    base = p.values
    if not ctx.ok(base.shape == (len(te), n) and p.index.equals(te.index) and list(p.columns) == ['y_t+%d' % s for s in range(1, n + 1)], 'causal:labels', '%s %s %s' % (info, base.shape, list(p.columns))):
        return
    ctx.ok(np.isfinite(base).all(), 'causal:finite', info)
    for j in range(len(te)):
        for col, d in (('y', 2.5), ('y', -40.0), ('c', 3.0)):
            z = te.copy()
            z.iloc[j, list(z.columns).index(col)] += d
            got = f.predict(z).values
            ctx.step()
            ctx.ok((got[:j] == base[:j]).all(), 'causal:future', '%s: changing row %d (%s) changes forecasts of earlier rows' % (info, j, col))
            if col == 'c':
                ctx.ok((got == base).all(), 'causal:covariate', '%s: a covariate changes the forecast' % info)
            elif c['cls'] != 'multi':
                ctx.ok((got[j, 0] - base[j, 0]) * d > 0, 'causal:reacts', '%s: the forecast of row %d does not follow its own observation' % (info, j))
        ctx.eq(f.predict(te.iloc[:j + 1]).values, base[:j + 1], 'causal:prefix', '%s prefix %d' % (info, j + 1), tol=0)
        ctx.state(info, j)
    qd = f.predict_quantiles(te)
    qn = f.predict_quantiles(te, dataframe=False)
    ctx.eq(np.asarray(qn), base[:, :, None] + np.asarray(f.err_distr)[None], 'causal:quantiles', info, tol=1e-9)
    for s, k in itertools.product(range(n), range(3)):
        ctx.eq(qd.loc[:, ('y_t+%d' % (s + 1), Q[k])].values, base[:, s] + f.err_distr[s, k], 'causal:quantile-table', info, tol=1e-9)
    if c['cls'] == 'multi':
        # every forecast is a mixture of the experts with the same weights at all steps
        ex = np.dstack([mm.predict(te).values for mm in f.models])
        for i in range(len(te)):
            lo, hi = ex[i].min(1) - 1e-7, ex[i].max(1) + 1e-7
            ctx.ok(((base[i] >= lo) & (base[i] <= hi)).all(), 'causal:mixture', '%s row %d: %s outside the experts %s' % (info, i, base[i], ex[i].tolist()))
            if ex.shape[2] == 2:
                d = ex[i, :, 1] - ex[i, :, 0]
                if (np.abs(d) > 1e-3).all():
                    w = (base[i] - ex[i, :, 0]) / d
                    ctx.ok(np.ptp(w) < 1e-6, 'causal:weights', '%s row %d: weights differ between steps %s' % (info, i, w))
        ms = sorted(mm.m for mm in f.models)
        for mm in f.models:
            g = build(dict(cls=c['base'], m=int(mm.m), n=n, h=3, per=None, alpha=mm.alpha, omega=mm.omega))
            if c['base'] == 'F':
                g = type(mm)(**{**mm.get_params(), 'periodicity': mm.periodicity})
            else:
                g = type(mm)(**{**mm.get_params(), 'periodicity': mm.periodicity})
            g.fit(x)
            ctx.eq(mm.predict(te).values, g.predict(te).values, 'causal:expert', '%s expert with window %d' % (info, mm.m), tol=1e-9)
        ctx.ok(ms[-1] == m and len(ms) == c['k'], 'causal:windows', '%s windows %s' % (info, ms))
    # re-initialisation and fresh fit
    for cp in (f, copy.deepcopy(f), pickle.loads(pickle.dumps(f))):
        ctx.eq(cp.predict(te).values, base, 'causal:copy', info, tol=0)
    f.reinit_pars()
    f.fit(x)
    ctx.eq(f.predict(te).values, base, 'causal:reinit', info, tol=1e-9)
    ctx.eq(np.asarray(f.err_distr)[None].repeat(1, 0)[0], np.asarray(build(c).fit(x).err_distr), 'causal:reinit', info, tol=1e-9)
    # any scale of the signal
    if c['cls'] != 'multi':
        for a in (-2.0, 1000.0):
            g = build(c).fit(x.assign(y=x['y'] * a))
            ctx.eq(g.predict(te.assign(y=te['y'] * a)).values, a * base, 'causal:scale', '%s scale %s' % (info, a), tol=1e-5 * abs(a))
    ctx.trace()


def ops(ctx, case):
    """every sequence of operations: forecasts always equal those of the model as fitted"""
    c = case['c']
    n = c['n']
    x = frame(sig(14))
    A, B = frame(sig(6, seed=5), 14), frame(sig(11, seed=6), 14)
    f0 = build(c)
    f0.fit(x)
    ref = {k: copy.deepcopy(f0).predict(v).values for k, v in (('A', A), ('B', B))}
    e0 = np.asarray(f0.err_distr).copy()

    def judge(f, k, seq):
        got = f.predict(A if k == 'A' else B).values
        ctx.eq(got, ref[k], 'ops:forecast', '%s after %s' % (c, seq), tol=0)

    def do(f, o, seq):
        if o == 0:
            judge(f, 'A', seq)
        elif o == 1:
            judge(f, 'B', seq)
        elif o == 2:
            ctx.eq(np.asarray(f.predict_quantiles(A, dataframe=False)), ref['A'][:, :, None] + e0[None], 'ops:quantiles', '%s after %s' % (c, seq), tol=1e-9)
        elif o == 3:
            return copy.deepcopy(f)
        elif o == 4:
            return pickle.loads(pickle.dumps(f))
        elif o == 5:
            g = copy.deepcopy(f)              # a copy going its own way does not affect the original
            g.fit(frame(sig(13, seed=8)))
            g.predict(B)
        return f
    for rest in itertools.product(range(6), repeat=case['depth'] - 1):
        seq = (case['first'],) + rest
        f = copy.deepcopy(f0)
        for i, o in enumerate(seq):
            f = do(f, o, seq[:i + 1])
            ctx.step()
        judge(f, 'A', seq)
        ctx.ok(np.array_equal(np.asarray(f.err_distr), e0), 'ops:errors', '%s after %s' % (c, seq))
        ctx.state(str(c), seq)
    ctx.trace()


def periodic(ctx, case):
    """a signal that repeats itself is forecast exactly once the window is full"""
    m, n = case['m'], case['n']
    for per in [d for d in range(1, m + 1) if m % d == 0]:
        y = np.tile([3.0, -1.0, 7.5, 2.0, 0.5, 9.0][:per], 40)[:m * 6]
        for split in (2, 3, 4):
            for period in sorted({per, m}):
                h = max(1, m // 2)
                c = dict(cls='F', m=m, n=n, h=h, per=period, alpha=0.999999, omega=0.999999)
                if period < n:
                    continue                  # the extrapolated basis is not periodic beyond the stored range
                f = build(c).fit(frame(y[:m * split]))
                te = y[m * split:]
                p = f.predict(frame(te, m * split)).values
                ctx.step()
                ctx.state(m, n, per, split, period)
                exp = np.array([[y[(m * split + i + 1 + s) % per] for s in range(n)] for i in range(len(te))])
                if m % 2 == 0:
                    # the Nyquist term of an even window counts twice in the projection: only signals without it are reproduced
                    alt = np.abs((y[:m] * (-1.0) ** np.arange(m)).sum())
                    if alt > 1e-9:
                        continue
                ctx.eq(p, exp, 'periodic:exact', '%s signal period %d split %d' % (c, per, split), tol=1e-3)
    ctx.trace()


def split(ctx, case):
    """fitting on a whole number of windows and forecasting the rest equals running over the whole history"""
    m, n, h = case['m'], case['n'], case['h']
    for per in (None, m):
        for alpha, omega in ((0.7, 0.6), (0.2, 0.9)):
            c = dict(cls='F', m=m, n=n, h=h, per=per, alpha=alpha, omega=omega)
            L = 6 * m
            y = sig(L)
            whole = build(c).predict(frame(y)).values
            for k in range(1, 6):
                if k * m <= n + 1:
                    continue
                f = build(c).fit(frame(y[:k * m]))
                ctx.eq(f.predict(frame(y[k * m:], k * m)).values, whole[k * m:], 'split:F', '%s split at %d' % (c, k * m), tol=1e-8)
                ctx.step()
                for j in range(k + 1, 6):      # and fitting continues from the stored state
                    f2 = copy.deepcopy(f)
                    if (j - k) * m <= n + 1:
                        continue
                    f2.fit(frame(y[k * m:j * m], k * m))
                    ctx.eq(f2.predict(frame(y[j * m:], j * m)).values, whole[j * m:], 'split:F', '%s fitted in two parts %d %d' % (c, k * m, j * m), tol=1e-8)
                    ctx.step()
                ctx.state(str(c), k)
            # linearity
            z = sig(L, seed=12)
            one, two = whole, build(c).predict(frame(z)).values
            ctx.eq(build(c).predict(frame(2 * y - 3 * z)).values, 2 * one - 3 * two, 'split:linear', str(c), tol=1e-7)
        c = dict(cls='FK', m=m, n=n, h=h, per=per)
        whole = build(c).predict(frame(y)).values
        for k in range(1, 6):
            if k * m <= n + 1:
                continue
            f = build(c).fit(frame(y[:k * m]))
            ctx.eq(f.predict(frame(y[k * m:], k * m)).values[:1], whole[k * m:k * m + 1], 'split:FK', '%s split at %d' % (c, k * m), tol=1e-6)
            ctx.step()
    ctx.trace()


def flat(ctx, case):
    """signals that do not vary for a while, or at all"""
    m = case['m']
    for cls, n in itertools.product(('F', 'FK', 'multi'), (1, 2)):
        for name, y in (('zeros first', np.r_[np.zeros(2 * m + 1), sig(2 * m)]), ('zero', np.zeros(5 * m)), ('one level', np.full(5 * m, 3.25)), ('zeros last', np.r_[sig(2 * m), np.zeros(2 * m + 1)]),
                        ('repeats', np.tile(sig(m), 5))):
            c = dict(cls=cls, m=m, n=n, h=m // 2, per=None, k=2, base='F')
            if cls == 'multi' and m < 4 and n == 1:
                c['k'] = 1                # windows of one observation have no basis
            f = build(c).fit(frame(y))
            p = f.predict(frame(y)).values
            ctx.step()
            ctx.state(cls, n, name)
            ctx.ok(np.isfinite(p).all() and np.isfinite(np.asarray(f.err_distr)).all(), 'flat:%s:finite' % cls, '%s %s: forecasts are not finite' % (c, name))
            if name == 'one level':
                # once the window is full the level is known
                ctx.ok(np.abs(p[3 * m:, 0] - 3.25).max() < 0.5, 'flat:%s:level' % cls, '%s: level 3.25 forecast as %s' % (c, p[3 * m:, 0]))
    ctx.trace()


ALT = dict(F=dict(n_harmonics=[1, 3, 2], m=[4, 6, 5], omega=[.2, .6], alpha=[.3, .7], periodicity=[4, 2], n_sa=[1, 2], target_name=['z', 'y']),
           FK=dict(n_harmonics=[1, 3, 2], m=[4, 6, 5], omega=[.2, .6], r=[.5, .1], q=[.7, .1], periodicity=[4, 2], n_sa=[1, 2], target_name=['z', 'y']),
           multi=dict(n_predictors=[1, 3, 2], m=[5, 6], r=[.5, .1], q=[.7, .1], periodicity=[3, 2], n_sa=[1, 2], target_name=['z', 'y']))


def renew(ctx, case):
    """parameters set after a fit, re-initialisation, fit: like a forecaster constructed with them, along a chain of settings"""
    c = dict(cls=case['cls'], m=6, n=2, h=3, per=2, k=2, base='F')
    x, te = frame(sig(30)), frame(sig(9, seed=5), 30)
    for d in (x, te):
        d['z'] = 7 - d['y'].values[::-1] * 2
    f = build(c).fit(x)
    now = {}
    for step in itertools.product(*[ALT[case['cls']][k] for k in case['pars']]):
        now.update(zip(case['pars'], step))
        f.set_params(**now)
        f.reinit_pars()
        f.fit(x)
        g = build(c)
        g = type(g)(**{**g.get_params(), **now}).fit(x)
        info = '%s %s' % (case, now)
        ctx.step()
        ctx.state('renew', case['cls'], str(now))
        ctx.eq(f.predict(te).values, g.predict(te).values, 'renew:forecast', info, tol=1e-9)
        ctx.eq(np.asarray(f.predict_quantiles(te, dataframe=False)), np.asarray(g.predict_quantiles(te, dataframe=False)), 'renew:quantiles', info, tol=1e-9)
        f.predict(te)
    ctx.trace()


def tune(ctx, case):
    import pyforecaster.forecasting_models.fast_adaptive_models as F
    import pyforecaster.forecasting_models.holtwinters as hw
    x, te = frame(sig(40)), frame(sig(8, seed=4), 40)
    for seed in (0, 1, 2):
        np.random.seed(seed)
        kw = dict(target_name='y', n_sa=2, m=4, q_vect=Q, verbose=False, optimization_budget=3, periodicity=2)
        if case['cls'] == 'multi':
            f = F.FK_multi(n_predictors=2, optimize_submodels_hyperpars=True, **kw)
        else:
            f = dict(F=F.Fourier_es, FK=F.FK)[case['cls']](**kw)
        with sched.executor_order(hw, [2, 0, 1]):
            f.fit(x)
        ctx.step()
        ctx.state(case['cls'], seed)
        base = f.predict(te).values
        if case['cls'] == 'multi':
            ex = np.dstack([mm.predict(te).values for mm in f.models])
            ctx.ok(((base >= ex.min(2) - 1e-7) & (base <= ex.max(2) + 1e-7)).all(), 'tune:mixture')
            continue
        pars = f.get_params()
        g = type(f)(**{**pars, 'optimize_hyperpars': False})
        g.fit(x)
        ctx.eq(base, g.predict(te).values, 'tune:fit', '%s seed %d: the tuned model does not predict as one built with the parameters it reports' % (case['cls'], seed), tol=1e-7)
        ctx.eq(np.asarray(f.err_distr), np.asarray(g.err_distr), 'tune:errors', str(case), tol=1e-7)
        np.random.seed(seed)
        names = list(f.hyperpar_lims)
        cand = []
        for _ in range(3):
            v = {}
            for k, (lo, hi) in f.hyperpar_lims.items():
                v[k] = np.random.rand() * (hi - lo) + lo
            cand.append(v)

        def score(v):
            mod = type(f)(**{**kw, **v, 'optimize_hyperpars': False}).fit(x.iloc[:28])
            hat = mod.predict(x.iloc[28:]).values
            t = x['y'].values[28:]
            tgt = np.array([[t[1 + j + i] for i in range(2)] for j in range(len(t) - 2)])
            return np.mean((hat[:len(tgt)] - tgt) ** 2)
        best = min(cand, key=score)
        ctx.ok(all(abs(getattr(f, k) - best[k]) < 1e-9 for k in names), 'tune:best', '%s seed %d: chosen %s, best %s' % (case['cls'], seed, {k: getattr(f, k) for k in names}, best))
    ctx.trace()


def wrapper(ctx, case):
    c = case['c']
    n = c['n']
    x, te = frame(sig(24)), frame(sig(7, seed=5), 24)
    x0, t0 = x.copy(), te.copy()
    f = build(c).fit(x)
    ctx.ok(x.equals(x0), 'wrapper:input')
    base = f.predict(te).values
    info = str(c)
    ctx.ok(base.shape == (7, n) and te.equals(t0), 'wrapper:shape', info)
    ctx.eq(f.predict(te).values, base, 'wrapper:repeat', info, tol=0)
    ctx.eq(np.asarray(f.predict_quantiles(te, dataframe=False)), base[:, :, None] + np.asarray(f.err_distr)[None], 'wrapper:quantiles', info, tol=1e-9)
    ctx.eq(np.asarray(f.err_distr), np.quantile(residuals(x, f.predict(x).values, n), Q, axis=0).T, 'wrapper:errors', info, tol=1e-7)
    full = f.model
    y = te['y']
    for j in range(len(te)):
        z = te.copy()
        z.iloc[j, 0] += 5.0
        got = f.predict(z).values
        ctx.step()
        ctx.ok((got[:j] == base[:j]).all(), 'wrapper:future', '%s: row %d changes earlier forecasts' % (info, j))
        ctx.ok(got[j, 0] > base[j, 0] + 1e-6, 'wrapper:own-row', '%s: the forecast of row %d does not use its own observation' % (info, j))
        full = full.append(te[['y']].asfreq('h').iloc[[j]])
        ctx.eq(base[j], np.asarray(full.forecast(n)), 'wrapper:value', '%s row %d' % (info, j), tol=1e-7)
        if j >= 2:
            ctx.eq(f.predict(te.iloc[:j + 1]).values, base[:j + 1], 'wrapper:prefix', info, tol=0)
        ctx.state(info, j)
    g = pickle.loads(pickle.dumps(f))
    ctx.eq(g.predict(te).values, base, 'wrapper:pickle', info, tol=0)
    f.fit(x)
    ctx.eq(f.predict(te).values, base, 'wrapper:refit', info, tol=1e-9)
    ctx.trace()
