"""C19: exponential smoothing: every chunking of the history, every placement of missing values, save / restore / re-initialisation at every point, against an independent recursion."""
import copy
import itertools
import math
import pickle
import numpy as np
import pandas as pd
from mc import sched

PID = 'C19'
PREFORK = True
BOUNDS = dict(quick='10 pairs of seasonalities x 1..3 (4..11) steps x 6 coefficient sets x integer / real data x constraints x covariates: all 32 chunkings of 6 observations; all 32 placements of '
                    'missing values in 5 observations x all 16 chunkings; save/restore/re-init at every point; every division of 1..4 steps among sub-models; tuning: every score order of '
                    '3-4 candidates x every completion order', thorough='7-8 observations, more seasonalities and coefficients')
ASSUMPTIONS = ['training data have no missing target; the trend is kept fixed while predicting (as the code documents by passing 0)', 'the forecaster is fed ordered data, as documented: '
               'every call advances the state']

PERIODS = ((2, 3), (1, 2), (3, 3), (1, 1), (2, 4))
COEF = ((0.2, 0.0, 0.1, 0.1), (0.9, 0.0, 0.5, 0.3), (0.0, 0.0, 0.4, 0.0), (0.3, 0.2, 0.0, 0.6), (1.0, 0.0, 1.0, 1.0), (0.4, 0.05, 0.7, 0.2))


def setup():
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    for dt in (float, int):
        f = make((2, 3), 2, COEF[0]).fit(frame(train(12, dt)))
        f.predict(frame(train(3, dt)))


def make(periods, n_sa, coef, constraints=None, **kw):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    a, b, g1, g2 = coef
    return HoltWinters(periods=list(periods), target_name='y', q_vect=np.array([0.1, 0.5, 0.9]), n_sa=n_sa, optimize_hyperpars=False, alpha=a, beta=b, gamma_1=g1, gamma_2=g2,
                       constraints=constraints, verbose=False, **kw)


def train(n, dt=float, seed=3):
    rng = np.random.default_rng(seed)
    v = 5 + 3 * np.sin(np.arange(n) * 2.1) + rng.normal(size=n) + 0.2 * np.arange(n)
    return np.round(v * 3).astype(int) if dt is int else v


def frame(y, cov=False, start=0):
    df = pd.DataFrame({'y': y}, index=pd.date_range('2021-01-01', periods=len(y), freq='1h') + pd.Timedelta(hours=start))
    if cov:
        k = np.arange(start, start + len(y))
        df.insert(0, 'c', (k * 7 % 5) + 0.5)
        df['d'] = np.cos(k * 1.7)
    return df


class Ref:
    """double seasonal additive smoothing written as indexed recursion"""
    def __init__(self, periods, n_sa, coef, con):
        self.p, self.n, self.c, self.con = periods, n_sa, coef, con or (-np.inf, np.inf)
        self.a = self.b = 0.0
        self.S = None

    def feed(self, y, trend=True):
        al, be, g1, g2 = self.c
        if not trend:
            be = 0.0
        y = [float(v) for v in y]
        if self.S is None:
            self.S = [[y[-1]] * p for p in self.p]     # S[i]: full history of seasonal terms, one appended per observation
        out = []
        for v in y:
            o1, o2 = self.S[0][-self.p[0]], self.S[1][-self.p[1]]
            if v != v:
                v = self.a + self.b + o1 + o2
            lev = al * (v - o1 - o2) + (1 - al) * (self.a + self.b)
            n1 = g1 * (v - lev - o2) + (1 - g1) * o1
            n2 = g2 * (v - lev - o1) + (1 - g2) * o2
            n1, n2 = [min(max(n, self.con[0]), self.con[1]) for n in (n1, n2)]
            self.b = be * (lev - self.a) + (1 - be) * self.b
            self.a = lev
            self.S[0].append(n1)
            self.S[1].append(n2)
            row = []
            for h in range(1, self.n + 1):
                s = 0.0
                for S, p in zip(self.S, self.p):
                    k = h
                    while k > 0:
                        k -= p                          # same season, latest observed
                    s += S[len(S) - 1 + k]
                row.append(self.a + h * self.b + s)
            out.append(row)
        return np.array(out)

    def season(self, y):
        for _ in range(20):
            self.feed(y[-max(self.p):])

    def states(self):
        return self.a, self.b, np.array(self.S[0][-self.p[0]:]), np.array(self.S[1][-self.p[1]:])


def same_states(ctx, st, ref, key, info, tol=1e-7):
    for n, e in zip(('a', 'b', 's1', 's2'), ref):
        ctx.eq(np.asarray(st[n], float), np.asarray(e, float), key, '%s state %s' % (info, n), tol=tol)


def chunkings(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        res, s = [], 0
        for i, c in enumerate(cuts):
            if c:
                res.append((s, i + 1))
                s = i + 1
        yield res + [(s, n)]


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for p, n, dt in itertools.product(PERIODS + (() if q else ((4, 3), (2, 5))), (1, 2, 3) if q else (1, 2, 3, 5), ('float', 'int')):
        for ci in range(len(COEF)):
            res.append(dict(kind='hist', p=list(p), n=n, dt=dt, ci=ci, L=6 if q else 7))
    # horizons beyond one and both seasons, seasons of any relative size
    for p, n, ci in itertools.product(((3, 2), (5, 3), (3, 5), (2, 5), (4, 1)), (4, 5, 7, 11), (0, 1, 3) if q else range(len(COEF))):
        res.append(dict(kind='hist', p=list(p), n=n, dt='float', ci=ci, L=4 if q else 6))
    for p, ci in itertools.product(PERIODS, range(len(COEF))):
        res.append(dict(kind='missing', p=list(p), ci=ci, L=5 if q else 6))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for r in range(n):
            for sub in itertools.combinations(range(1, n), r):
                res.append(dict(kind='multi', mp=list(sub) + [n], con=len(sub) % 2))
    for k in (2, 3, 4):
        res.append(dict(kind='tune', k=k))
    res.append(dict(kind='tune_real'))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def fitted(ctx, p, n, coef, con, dt, cov, key='fit'):
    y = train(15, dt)
    x = frame(y, cov)
    x0 = x.copy()
    f = make(p, n, coef, con)
    f.fit(x)
    ref = Ref(p, n, coef, con)
    hat = ref.feed(y)[:len(y) - n]
    target = np.array([[float(y[j + 1 + i]) for i in range(n)] for j in range(len(y) - n)])
    X = x.values[:-n].astype(float)
    w = np.linalg.lstsq(X, target - hat, rcond=None)[0]
    resid = target - hat - X @ w
    info = 'periods %s steps %d coefficients %s constraints %s %s cov %s' % (p, n, coef, con, dt, cov)
    ctx.eq(np.asarray(f.err_distr), np.quantile(resid, f.q_vect, axis=0).T, key + ':errors', info, tol=1e-5)
    ref.season(y)
    same_states(ctx, f.get_states(), ref.states(), key + ':states', info)
    ctx.ok(x.equals(x0), key + ':input', info)
    return f, ref, (w if cov else None), info


def hist(ctx, case):
    p, n, L = tuple(case['p']), case['n'], case['L']
    dt = int if case['dt'] == 'int' else float
    coef = COEF[case['ci']]
    for con, cov in ((None, False), ([-1.0, 1.5], False), (None, True)):
        f0, ref0, w, info = fitted(ctx, p, n, coef, con, dt, cov)
        y = train(L, dt, seed=9)
        x = frame(y, cov, 15)
        x0 = x.copy()
        ref = copy.deepcopy(ref0)
        exp = ref.feed(y, trend=False)
        if cov:
            exp = exp + x.values.astype(float) @ w
        end = None
        for ch in chunkings(L):
            f = copy.deepcopy(f0)
            outs = [f.predict(x.iloc[a:b]) for a, b in ch]
            ctx.step(len(ch))
            got = pd.concat(outs)
            ctx.eq(got.values, exp, 'hist:forecast', '%s chunks %s' % (info, ch), tol=1e-6)
            ctx.ok(got.index.equals(x.index) and list(got.columns) == list(f.target_cols) and len(set(got.columns)) == n, 'hist:labels', '%s %s' % (info, list(got.columns)))
            same_states(ctx, f.get_states(), ref.states(), 'hist:states', '%s chunks %s' % (info, ch))
            ctx.state(str(case), str(con), cov, str(ch))
        ctx.trace()
        ctx.ok(x.equals(x0), 'hist:input', info)
        # causality
        f = copy.deepcopy(f0)
        base = f.predict(x).values
        for j in range(L):
            xp = x.copy()
            xp.iloc[j, list(xp.columns).index('y')] += 7 if dt is int else 3.7
            g = copy.deepcopy(f0)
            ctx.ok((g.predict(xp).values[:j] == base[:j]).all(), 'hist:future', '%s: changing row %d changes earlier forecasts' % (info, j))
            ctx.step()
        # quantiles
        g = copy.deepcopy(f0)
        qt = g.predict_quantiles(x, dataframe=False)
        ctx.eq(np.asarray(qt), base[:, :, None] + np.asarray(f0.err_distr)[None], 'hist:quantiles', info, tol=1e-9)
        g = copy.deepcopy(f0)
        qd = g.predict_quantiles(x)
        for k, al in enumerate(f0.q_vect):
            for s in range(n):
                ctx.eq(qd.loc[:, (f0.target_cols[s], al)].values, base[:, s] + f0.err_distr[s, k], 'hist:quantile-table', info, tol=1e-9)
        # save, restore and re-initialise at every point of the history
        for j in range(L + 1):
            f = copy.deepcopy(f0)
            if j:
                f.predict(x.iloc[:j])
            st = f.get_states()
            keep = copy.deepcopy(st)
            other = copy.deepcopy(f0)
            other.predict(x.iloc[:max(1, L - j)])
            for names in itertools.chain.from_iterable(itertools.combinations(('a', 'b', 's1', 's2'), r) for r in (1, 4)):
                o = copy.deepcopy(other)
                before = copy.deepcopy(o.get_states())
                o.set_states(**{m: st[m] for m in names})
                for m in before:
                    ctx.ok(np.array_equal(np.asarray(o.get_states()[m]), np.asarray((st if m in names else before)[m])), 'hist:partial', '%s restored %s, state %s' % (info, names, m))
                if len(names) == 4 and j < L:
                    ctx.eq(o.predict(x.iloc[j:]).values, base[j:], 'hist:restore', '%s at %d' % (info, j), tol=1e-9)
                    ctx.step()
            if j < L:
                pk = pickle.loads(pickle.dumps(f))
                ctx.eq(pk.predict(x.iloc[j:]).values, base[j:], 'hist:pickle', '%s at %d' % (info, j), tol=1e-9)
                f.predict(x.iloc[j:])
            for m in keep:
                ctx.ok(np.array_equal(np.asarray(st[m]), np.asarray(keep[m])), 'hist:saved-changed', '%s: the saved state %s changed while forecasting' % (info, m))
            for form in ('array', 'series', 'frame'):
                f = copy.deepcopy(f0)
                r = copy.deepcopy(ref0)
                if j:
                    f.predict(x.iloc[:j])
                    r.feed(y[:j], trend=False)
                last = train(2 * max(p) + 1, dt, seed=11)
                arg = last if form == 'array' else pd.Series(last) if form == 'series' else pd.DataFrame({'y': last})
                f.reinit(arg)
                r.season(last)
                same_states(ctx, f.get_states(), r.states(), 'hist:reinit', '%s at %d with %s' % (info, j, form))
                ctx.step()
        ctx.trace()
        # fitting again is a fresh fit
        f = copy.deepcopy(f0)
        f.predict(x)
        z = frame(train(13, dt, seed=21), cov)
        f.fit(z)
        g = make(p, n, coef, con).fit(z)
        ctx.eq(np.asarray(f.err_distr), np.asarray(g.err_distr), 'hist:refit', info, tol=1e-9)
        same_states(ctx, f.get_states(), [g.get_states()[m] for m in ('a', 'b', 's1', 's2')], 'hist:refit', info, tol=1e-9)
        ctx.eq(f.predict(x).values, g.predict(x).values, 'hist:refit', info, tol=1e-9)


def missing(ctx, case):
    p, L, coef = tuple(case['p']), case['L'], COEF[case['ci']]
    n = 2
    for con in (None, [-1.0, 1.5]):
        f0, ref0, _, info = fitted(ctx, p, n, coef, con, float, False)
        for mask in itertools.product((False, True), repeat=L):
            y = train(L, float, seed=9)
            y[list(mask)] = np.nan
            x = frame(y, False, 15)
            ref = copy.deepcopy(ref0)
            exp = ref.feed(y, trend=False)
            for ch in chunkings(L):
                f = copy.deepcopy(f0)
                got = np.vstack([f.predict(x.iloc[a:b]).values for a, b in ch])
                ctx.step(len(ch))
                st = f.get_states()
                ctx.ok(all(np.isfinite(np.asarray(v, float)).all() for v in st.values()), 'missing:finite', '%s missing %s chunks %s: state %s' % (info, mask, ch, st))
                ctx.ok(np.isfinite(got).all(), 'missing:finite', '%s missing %s chunks %s: forecasts %s' % (info, mask, ch, got.tolist()))
                ctx.eq(got, exp, 'missing:forecast', '%s missing %s chunks %s' % (info, mask, ch), tol=1e-6)
            ctx.state(str(case), str(con), mask)
        ctx.trace()


def multi(ctx, case):
    from pyforecaster.forecasting_models.holtwinters import HoltWintersMulti
    mp = case['mp']
    n = mp[-1]
    con = [-0.5, 0.8] if case['con'] else None
    q = np.array([0.05, 0.3, 0.5, 0.95])
    al, g1, g2 = [np.array([0.1, 0.25, 0.4, 0.55, 0.3][:len(mp)]) + d for d in (0.0, 0.07, 0.13)]
    for p, dt, cov in itertools.product(((2, 3), (3, 4)), (float, int), (False, True)):
        y = train(16, dt)
        x = frame(y, cov)
        te = frame(train(4, dt, seed=9), cov, 16)
        kw = dict(periods=list(p), target_name='y', q_vect=q, n_sa=n, optimize_hyperpars=False, optimize_submodels_hyperpars=False, alphas=al, gammas_1=g1, gammas_2=g2, verbose=False,
                  constraints=con, models_periods=np.array(mp))
        f0 = HoltWintersMulti(**kw)
        f0.fit(x)
        subs = []
        from pyforecaster.forecasting_models.holtwinters import HoltWinters
        for i, k in enumerate(mp):
            m = HoltWinters(periods=list(p), target_name='y', q_vect=q, n_sa=k, optimize_hyperpars=False, alpha=al[i], gamma_1=g1[i], gamma_2=g2[i], constraints=con, verbose=False).fit(x)
            m.reinit(y)
            subs.append(m)
        owner = [next(i for i, k in enumerate(mp) if s < k) for s in range(n)]
        info = 'sub-model steps %s periods %s %s cov %s constraints %s' % (mp, p, dt, cov, con)
        exp = {i: m.predict(te).values for i, m in enumerate(subs)}
        E = np.column_stack([exp[owner[s]][:, s] for s in range(n)])
        err = np.vstack([subs[owner[s]].err_distr[s] for s in range(n)])
        ctx.eq(np.asarray(f0.err_distr), err, 'multi:errors', info, tol=1e-7)
        for ch in chunkings(4):
            f = copy.deepcopy(f0)
            got = pd.concat([f.predict(te.iloc[a:b]) for a, b in ch])
            ctx.step(len(ch))
            ctx.state(str(case), p, str(dt), cov, str(ch))
            ctx.eq(got.values, E, 'multi:forecast', '%s chunks %s' % (info, ch), tol=1e-6)
            ctx.ok(got.index.equals(te.index) and list(got.columns) == ['y_%d' % s for s in range(n)], 'multi:labels', info)
        f = copy.deepcopy(f0)
        ctx.eq(np.asarray(f.predict_quantiles(te, dataframe=False)), E[:, :, None] + err[None], 'multi:quantiles', info, tol=1e-6)
        f = copy.deepcopy(f0)
        qd = f.predict_quantiles(te)
        for s in range(n):
            for k, a_ in enumerate(q):
                ctx.eq(qd.loc[:, ('y_%d' % s, a_)].values, E[:, s] + err[s, k], 'multi:quantile-table', info, tol=1e-6)
        f = copy.deepcopy(f0)
        last = train(9, dt, seed=30)
        f.reinit(last)
        for m in subs:
            m.fit(x)
            m.reinit(y)
            m.reinit(last)
        exp = {i: m.predict(te).values for i, m in enumerate(subs)}
        ctx.eq(f.predict(te).values, np.column_stack([exp[owner[s]][:, s] for s in range(n)]), 'multi:reinit', info, tol=1e-6)
        ctx.trace()


LOG = []


class Stub:
    """records how each candidate is trained and scored; its error on the held-out rows is its parameter"""
    def __init__(self, target_name=None, targets_names=None, n_sa=1, p=0.0, v=None, optimize_hyperpars=True, verbose=False):
        self.target_name, self.targets_names, self.n_sa, self.p, self.v, self.optimize_hyperpars = target_name, targets_names, n_sa, p, v, optimize_hyperpars

    def fit(self, x, y=None):
        LOG.append(('fit', self.p, self.target_name, tuple(x.columns), tuple(int(i) for i in x['i'])))
        return self

    def predict(self, x):
        LOG.append(('predict', self.p, self.target_name, tuple(x.columns), tuple(int(i) for i in x['i'])))
        y = x[self.target_name].values
        y = np.hstack([y, np.zeros(self.n_sa)])
        return pd.DataFrame({k: y[1 + k:1 + k + len(x)] + Stub.err(self.p) * (1 + (self.target_name == 'z')) for k in range(self.n_sa)}, index=x.index)

    @staticmethod
    def err(p):
        return abs(p - 0.37)

    def get_params(self):
        return dict(target_name=self.target_name, targets_names=self.targets_names, n_sa=self.n_sa, p=self.p, v=self.v, optimize_hyperpars=self.optimize_hyperpars)


def tune(ctx, case):
    """every order of candidate scores, serial and every completion order of the parallel workers: the best candidate by error on held-out rows is returned"""
    import pyforecaster.forecasting_models.holtwinters as hw
    k = case['k']
    N = 20
    x = pd.DataFrame({'i': np.arange(N), 'y': np.arange(N) * 1.0, 'z': np.arange(N) ** 1.5}, index=pd.date_range('2021-01-01', periods=N, freq='1h'))
    x0 = x.copy()
    # the candidates come from numpy's global generator: one seed for every order of their errors
    seeds = {}
    for sd in range(100000):
        draw = np.random.RandomState(sd).rand(k).tolist()
        errs = [Stub.err(v) for v in draw]
        if min(abs(a - b) for a, b in itertools.combinations(errs, 2)) > 0.03:
            seeds.setdefault(tuple(np.argsort(errs)), (sd, draw))
        if len(seeds) == math.factorial(k):
            break
    assert len(seeds) == math.factorial(k)
    for sd, order in seeds.values():
        for par in (None,) + tuple(itertools.permutations(range(k))):
            for names, n_sa, ret in itertools.product((['y'], ['y', 'z']), (1, 3), (False, True)):
                LOG.clear()
                np.random.seed(sd)
                args = (x, Stub, {'p': [0, 1]}, k, ret, par is not None, dict(target_name='y', targets_names=names, n_sa=n_sa))
                if par is None:
                    out = hw.tune_hyperpars(*args)
                else:
                    with sched.executor_order(hw, list(par)):
                        out = hw.tune_hyperpars(*args)
                ctx.step(k)
                ctx.state(tuple(order), par, tuple(names), n_sa, ret)
                info = 'candidates %s, %s, targets %s steps %d' % (order, 'serial' if par is None else 'completion %s' % (par,), names, n_sa)
                best = min(order, key=Stub.err)
                got = out.get_params() if ret else out
                ctx.ok(abs(got['p'] - best) < 1e-12, 'tune:best', '%s: returned %s, best is %s' % (info, got['p'], best))
                ctx.ok(got['target_name'] == 'y' or got['target_name'] is None, 'tune:target', '%s: target became %s' % (info, got['target_name']))
                if got['target_name'] != 'y':
                    ctx.fail('tune:target', info)
                n_tr = int(0.7 * N)
                train_, test_ = tuple(range(n_tr)), tuple(range(n_tr, N))
                sc = [l for l in LOG if l[0] == 'fit' and l[4] != tuple(range(N))]
                ctx.ok(sorted((l[1], l[2]) for l in sc) == sorted(itertools.product(order, names)), 'tune:candidates', '%s: evaluated %s' % (info, [l[1:3] for l in sc]))
                ctx.ok(all(l[4] == train_ for l in sc), 'tune:train-rows', info)
                ctx.ok(all(l[4] == test_ for l in LOG if l[0] == 'predict'), 'tune:test-rows', info)
                ctx.ok(all(set(l[3]) == {'i', 'y', 'z'} - (set(names) - {l[2]}) for l in sc), 'tune:columns', '%s: %s' % (info, [l[2:4] for l in sc]))
        ctx.trace()
    ctx.ok(x.equals(x0), 'tune:input')


def tune_real(ctx, case):
    """the forecaster's own tuning: the chosen coefficients are those of the best candidate and the fitted result equals fitting with them"""
    import pyforecaster.forecasting_models.holtwinters as hw
    y = train(40)
    x = frame(y)
    te = frame(train(5, seed=9), start=40)
    for n_sa, seed, budget in itertools.product((1, 2), (0, 1, 2), (2, 4)):
        np.random.seed(seed)
        cand = [[np.random.rand() for _ in range(3)] for _ in range(budget)]
        np.random.seed(seed)
        f = hw.HoltWinters(periods=[2, 3], target_name='y', q_vect=np.array([0.1, 0.5, 0.9]), n_sa=n_sa, optimize_hyperpars=True, optimization_budget=budget, verbose=False)
        with sched.executor_order(hw, list(range(budget))):
            f.fit(x)
        ctx.step(budget)
        ctx.state(n_sa, seed, budget)

        def score(c):
            m = make((2, 3), n_sa, (c[0], 0, c[1], c[2])).fit(x.iloc[:28])
            hat = m.predict(x.iloc[28:]).values
            t = y[28:]
            tgt = np.array([[t[1 + j + i] for i in range(n_sa)] for j in range(len(t) - n_sa)])
            return np.mean((hat[:len(tgt)] - tgt) ** 2)
        best = min(cand, key=score)
        ctx.ok(np.allclose([f.alpha, f.gamma_1, f.gamma_2], best), 'tune_real:best', 'chosen %s, best of the candidates %s' % ([f.alpha, f.gamma_1, f.gamma_2], best))
        g = make((2, 3), n_sa, (best[0], 0, best[1], best[2])).fit(x)
        ctx.eq(np.asarray(f.err_distr), np.asarray(g.err_distr), 'tune_real:fit', str(case), tol=1e-7)
        ctx.eq(f.predict(te).values, g.predict(te).values, 'tune_real:fit', str(case), tol=1e-7)
    for mp in ([1, 2], [2], [1, 3]):
        np.random.seed(3)
        f = hw.HoltWintersMulti(periods=[2, 3], target_name='y', q_vect=np.array([0.1, 0.5, 0.9]), n_sa=mp[-1], models_periods=np.array(mp), optimization_budget=2, verbose=False)
        with sched.executor_order(hw, [1, 0]):
            f.fit(x)
        ctx.step()
        got = [(m.alpha, m.gamma_1, m.gamma_2) for m in f.models]
        np.random.seed(5)
        g = hw.HoltWintersMulti(periods=[2, 3], target_name='y', q_vect=np.array([0.1, 0.5, 0.9]), n_sa=mp[-1], models_periods=np.array(mp), optimize_hyperpars=False,
                                optimize_submodels_hyperpars=False, alphas=[v[0] for v in got], gammas_1=[v[1] for v in got], gammas_2=[v[2] for v in got], verbose=False)
        g.fit(x)
        ctx.eq(f.predict(te).values, g.predict(te).values, 'tune_real:multi', str(mp), tol=1e-7)
        ctx.ok(f.predict(te).shape == (5, mp[-1]), 'tune_real:multi-shape', str(mp))
    ctx.trace()
