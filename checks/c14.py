"""C14: sampled scenarios: every shape, hour layout, seed and level grid; copula per hour; reproducibility under every call history."""
import itertools
import numpy as np
import pandas as pd
from mc import fcmodel as fm

PID = 'C14'
PREFORK = True
BOUNDS = dict(quick='rows 1..4 in every hour pattern over 2 hours x steps 1..3 x scenarios 1..4 x 3 level grids x with/without extra node x table/array input; copula: 4 covariance '
                    'estimators x steps 1..3, influence of every hour on every other; forecasters: 5 kinds x all histories of 2 calls',
              thorough='rows 1..5 over 3 hours, steps 1..4, scenarios 1..6')
ASSUMPTIONS = ['jitter of order 1e-9 on values (1e-6 on the extra root node) is documented by the code and tolerated', 'calibration errors of every used hour are not degenerate',
               'dependence of the samples is judged with 6000 draws at a fixed seed, tolerance 0.1']


def setup():
    import lightgbm  # noqa
    import pyforecaster.scenarios_generator, pyforecaster.forecaster, pyforecaster.forecasting_models.randomforests  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    R, H, S, N = (4, 2, 3, 4) if q else (5, 3, 4, 6)
    for r in range(1, R + 1):
        for hp in itertools.product(range(H), repeat=r):
            for s in range(1, S + 1):
                res.append(dict(kind='marg', hp=list(hp), steps=s, nmax=N))
    for m in ('vanilla', 'shrunk', 'glasso', 'glasso_cv'):
        for s in ((1, 2, 3) if m in ('vanilla', 'shrunk') else (2, 3)):
            res.append(dict(kind='copula', method=m, steps=s))
    for hp in itertools.product(range(3), repeat=3):
        res.append(dict(kind='depend', hp=list(hp)))
    for fc in ('lin', 'lgb', 'hybrid1', 'qrf0', 'rff'):
        for an in (False, True):
            res.append(dict(kind='fore', fc=fc, an=an))
    for r in range(1, R):
        for hp in itertools.product(range(H), repeat=r):
            for an in (False, True):
                res.append(dict(kind='trees', hp=list(hp), an=an))
    for fc in ('lin', 'lgb', 'hybrid1', 'qrf0', 'rff'):
        for an in (False, True):
            res.append(dict(kind='foretrees', fc=fc, an=an))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


HRS = [5, 17, 0]


def errors(steps, hours=(5, 17, 0), n=30, rho=None):
    """calibration errors with a different dependence per hour"""
    rng = np.random.default_rng(3)
    rows, idx = [], []
    for k, h in enumerate(hours):
        z = rng.normal(size=(n, 1))
        e = rng.normal(size=(n, steps))
        sign = np.array([1 if (j + k) % 2 == 0 or k == 0 else -1 for j in range(steps)])
        w = [0.95, 0.8, 0.0][k % 3] if rho is None else rho
        rows.append(w * z * sign + np.sqrt(1 - w * w) * e + k)
        idx += [pd.Timestamp('2021-01-01') + pd.Timedelta(days=i, hours=h) for i in range(n)]
    df = pd.DataFrame(np.vstack(rows), index=pd.DatetimeIndex(idx), columns=['s%d' % j for j in range(steps)])
    return df.sort_index()


def qgrid(r, steps, q):
    """distinct, increasing, non-linear quantile curves per (row, step)"""
    out = np.zeros((r, steps, len(q)))
    for i, s in itertools.product(range(r), range(steps)):
        out[i, s] = 100 * i + 10 * s + np.array([(k + 1) ** 1.5 * (1 + 0.3 * s) for k in range(len(q))])
    return out


def interp(u, q, v):
    """piecewise linear through (q, v), first/last segment extended"""
    if len(q) == 1:
        raise ValueError
    k = 0
    while k < len(q) - 2 and u > q[k + 1]:
        k += 1
    return v[k] + (v[k + 1] - v[k]) * (u - q[k]) / (q[k + 1] - q[k])


def marg(ctx, case):
    from pyforecaster.scenarios_generator import ScenGen
    r, steps = len(case['hp']), case['steps']
    ix = pd.DatetimeIndex([pd.Timestamp('2021-06-01') + pd.Timedelta(days=i, hours=HRS[h]) for i, h in enumerate(case['hp'])])
    x = pd.DataFrame({'f': np.arange(r)}, index=ix)
    y = errors(steps)
    for q in (np.array([0.1, 0.9]), np.array([0.01, 0.3, 0.5, 0.99]), np.array([0.0, 0.5, 1.0])):
        for an in (False, True):
            g = ScenGen(q_vect=q, additional_node=an).fit(y, y)
            quant = qgrid(r, steps, q)
            for n in range(1, case['nmax'] + 1):
                info = '%s levels=%s additional=%s n=%d' % (case, list(q), an, n)
                u = g.copula.sample(x, n, random_state=4)
                ctx.step(2)
                ctx.state(tuple(case['hp']), steps, len(q), an, n)
                if not ctx.ok(u.shape == (r, steps, n), 'marg:copula-shape', '%s: copula sample has shape %s' % (info, u.shape)):
                    continue
                ctx.ok(((u >= 0) & (u <= 1)).all(), 'marg:levels', info)
                init = np.arange(r) * 7.0 - 3 if an else None
                q0 = quant.copy()
                sc = g.predict_scenarios(quant, n_scen=n, x=x, init_obs=init, random_state=4)
                if not ctx.ok(sc.shape == (r, steps + an, n), 'marg:shape', '%s: scenarios have shape %s' % (info, sc.shape)):
                    continue
                exp = np.array([[[interp(u[i, s, k], q, quant[i, s]) for k in range(n)] for s in range(steps)] for i in range(r)])
                ctx.eq(sc[:, an:, :] if an else sc, exp, 'marg:value', info, tol=1e-6)
                if an:
                    ctx.ok(np.allclose(sc[:, 0, :], init.reshape(-1, 1), atol=1e-5), 'marg:root', '%s: first node %s, observation %s' % (info, sc[:, 0, :], init))
                ctx.ok((q0 == quant).all(), 'marg:input', 'quantiles were changed')
                np.random.seed(99)
                sc2 = g.predict_scenarios(quant, n_scen=n, x=x, init_obs=init, random_state=4)
                ctx.eq(sc2, sc, 'marg:seed', info + ': same seed, other numbers', tol=1e-5)
                zero = [g.predict_scenarios(quant, n_scen=n, x=x, init_obs=init, random_state=0) for _ in range(2)]
                ctx.eq(zero[1], zero[0], 'marg:seed', info + ': seed 0, other numbers', tol=1e-5)
                # table form: outer level quantile, inner level step
                tab = pd.DataFrame(np.hstack([quant[:, :, k] for k in range(len(q))]), index=ix, columns=pd.MultiIndex.from_product([q, ['z%d' % (9 - s) for s in range(steps)]]))
                sc3 = g.predict_scenarios(tab, n_scen=n, init_obs=init, random_state=4)
                ctx.eq(sc3, sc, 'marg:table', info + ': table input', tol=1e-5)
    ctx.trace()


def copula(ctx, case):
    from pyforecaster.copula import HourlyGaussianCopula
    steps = case['steps']
    y = errors(steps)
    y = pd.concat([y, errors(steps, hours=(17,), n=40).shift(freq='60D')])       # hour 17 has most rows
    c = HourlyGaussianCopula(cov_est_method=case['method']).fit(y, y)
    ctx.step()
    ctx.ok(sorted(int(h) for h in c.pars) == [0, 5, 17], 'copula:hours', str(list(c.pars)))
    for h in (0, 5, 17):
        e = y[y.index.hour == h]
        got = np.asarray(c.pars[h])
        if case['method'] == 'vanilla':
            m = e.values - e.values.mean(0)
            cov = m.T @ m
            exp = cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
            ctx.eq(got, exp, 'copula:vanilla', 'hour %d' % h, tol=1e-5)
        ctx.ok(got.shape == (steps, steps) and np.allclose(got, got.T, atol=1e-8), 'copula:shape', 'hour %d: %s' % (h, got))
        ctx.ok((np.linalg.eigvalsh(got) > -1e-9).all(), 'copula:psd', 'hour %d' % h)
        for h2 in (0, 5, 17):
            y2 = y.copy()
            rng = np.random.default_rng(5)
            sel = y2.index.hour == h2
            y2.loc[sel] = rng.normal(size=(sel.sum(), steps)) * np.arange(1, steps + 1)
            c2 = HourlyGaussianCopula(cov_est_method=case['method']).fit(y2, y2)
            ctx.step()
            ctx.state(case['method'], steps, h, h2)
            # 'glasso_cv' tunes one penalty on the hour with most rows (17): only that hour may influence others
            if h != h2 and not (case['method'] == 'glasso_cv' and h2 == 17):
                ctx.eq(np.asarray(c2.pars[h]), got, 'copula:%s:other-hour' % case['method'], 'errors of hour %d influence hour %d' % (h2, h))
    # scale and shift of an error column do not matter
    if case['method'] == 'vanilla':
        c3 = HourlyGaussianCopula().fit(y * np.arange(2, steps + 2) + 5, y)
        for h in c.pars:
            ctx.eq(np.asarray(c3.pars[h]), np.asarray(c.pars[h]), 'copula:scale', 'hour %s' % h)
    ctx.trace()


def depend(ctx, case):
    """each row gets samples with the dependence of its own hour, whatever the order of the rows"""
    from pyforecaster.copula import HourlyGaussianCopula
    from scipy.stats import norm
    steps = 3
    y = errors(steps)
    c = HourlyGaussianCopula().fit(y, y)
    ix = pd.DatetimeIndex([pd.Timestamp('2021-06-01') + pd.Timedelta(days=i, hours=HRS[h]) for i, h in enumerate(case['hp'])])
    x = pd.DataFrame({'f': range(3)}, index=ix)
    u = c.sample(x, 6000, random_state=2)
    ctx.step()
    ctx.state(tuple(case['hp']))
    for i, h in enumerate(case['hp']):
        z = norm.ppf(u[i])
        r = np.corrcoef(z)
        e = y[y.index.hour == HRS[h]].values
        exp = np.corrcoef(e.T)
        ctx.ok(np.abs(r - exp).max() < 0.1, 'depend:corr', 'row %d (hour %d): dependence %s, calibration errors of that hour %s' % (i, HRS[h], np.round(r, 2).tolist(), np.round(exp, 2).tolist()))
        ctx.ok(np.abs(z.mean(1)).max() < 0.1 and np.abs(z.std(1) - 1).max() < 0.1, 'depend:uniform', 'row %d: sampled levels are not uniform' % i)
    ctx.ok(not np.allclose(u[0], u[1]), 'depend:independent-rows', 'two rows share the same draws')
    for i, j in itertools.combinations(range(3), 2):
        if case['hp'][i] == case['hp'][j]:
            r = np.corrcoef(np.vstack([norm.ppf(u[i]), norm.ppf(u[j])]))[:3, 3:]
            ctx.ok(np.abs(r).max() < 0.1, 'depend:cross', 'rows %d and %d of the same hour are dependent' % (i, j))
    v = c.sample(x, 6000, random_state=3)
    ctx.ok(not np.allclose(u, v), 'depend:seed-used', 'the seed has no effect')
    ctx.trace()


def fore(ctx, case):
    """forecaster level: points on the predicted quantile curves, reproducible in any call history"""
    fc = case['fc']
    q = np.array([0.1, 0.4, 0.9])
    x, y = fm.data(72, 2, hours=[5, 17, 0][::-1] if False else [0, 5, 17], seed=8)
    f = fm.fitted(fc, x, y, q_vect=q, n_scen_fit=4, additional_node=case['an'])
    qx = x.iloc[[4, 0, 8, 1, 7]]
    quant = f.predict_quantiles(qx.copy(), dataframe=False)
    errs = y.values - f.predict(x.copy()).values
    for h in (0, 5, 17):
        e = errs[x.index.hour == h]
        ctx.eq(np.asarray(f.scengen.copula.pars[h]), np.corrcoef(e.T) + 1e-6 * np.eye(2), 'fore:%s:copula' % fc, 'hour %d' % h, tol=1e-6)
    ref = {}
    for n, seed in ((3, 1), (3, 2), (1, 1), (5, 1), (3, 0)):
        u = f.scengen.copula.sample(qx, n, random_state=seed)
        exp = np.array([[[interp(u[i, s, k], q, quant[i, s]) for k in range(n)] for s in range(2)] for i in range(len(qx))])
        ref[(n, seed)] = exp
    for a, b in itertools.product(ref, repeat=2):
        for (n, seed) in (a, b):
            sc = f.predict_scenarios(qx.copy(), n_scen=n, random_state=seed)
            ctx.step()
            ctx.state(fc, case['an'], a, b)
            if ctx.ok(sc.shape == (len(qx), 2 + case['an'], n), 'fore:%s:shape' % fc, 'shape %s' % (sc.shape,)):
                ctx.eq(sc[:, -2:, :], ref[(n, seed)], 'fore:%s:value' % fc, 'n=%d seed=%d' % (n, seed), tol=1e-6)
        np.random.rand(3)
        ctx.trace()
    sc = f.predict_scenarios(qx.copy(), random_state=1)
    ctx.ok(sc.shape[-1] == 4, 'fore:%s:default-n' % fc, 'default number of scenarios is %d' % sc.shape[-1])


def nodes(t):
    """(step, value, probability) of every node, ordered"""
    vals = [(int(d['t']), float(np.ravel(d['v'])[0]), float(d['p'])) for _, d in t.nodes(data=True)]
    return np.array(sorted(vals))


class Spy:
    """records the scenarios which are handed to the tree builder; ties between scenarios make the tree itself depend on the jitter"""
    def __init__(self, g):
        self.tree, self.calls = g.tree, []
        self.orig = g.tree.gen_tree

    def __enter__(self):
        def rec(*a, **k):
            sc = a[0] if a else k['scens']
            sc = np.array(sc, dtype=float)
            out = self.orig(*a, **k)
            self.calls.append((sc, nodes(out[0])))
            return out
        self.tree.gen_tree = rec
        return self

    def __exit__(self, *e):
        del self.tree.gen_tree


def judge_trees(ctx, spy, got, sc, key, info):
    if not ctx.ok(len(got) == len(sc) == len(spy.calls), key + ':number', '%s: %d trees of %d scenario sets for %d rows' % (info, len(got), len(spy.calls), len(sc))):
        return
    for i, (s, t) in enumerate(zip(sc, got)):
        ctx.eq(spy.calls[i][0], s, key + ':scenarios', '%s row %d: tree is built from other scenarios than those of the seed' % (info, i), tol=1e-5)
        m, n = nodes(t), spy.calls[i][1]
        ctx.ok(m.shape == n.shape and np.abs(m - n).max() < 1e-9, key + ':order', '%s: tree %d is not the one of row %d' % (info, i, i))


def trees(ctx, case):
    """the trees of a seed are those of the scenarios of that seed, whatever was drawn before"""
    from pyforecaster.scenarios_generator import ScenGen
    hp, an = case['hp'], case['an']
    q = np.array([0.1, 0.35, 0.6, 0.9])
    ix = pd.DatetimeIndex([pd.Timestamp('2021-06-01') + pd.Timedelta(days=i, hours=HRS[h]) for i, h in enumerate(hp)])
    x = pd.DataFrame({'f': range(len(hp))}, index=ix)
    for steps in (2, 3):
        y = errors(steps)
        quant = qgrid(len(hp), steps, q)
        nps = [1, 2, 3][:steps]
        g = ScenGen(q_vect=q, additional_node=an, tree_type='ScenredTree', nodes_at_step=nps).fit(y, y)
        tab = pd.DataFrame(np.hstack([quant[:, :, k] for k in range(len(q))]), index=ix, columns=pd.MultiIndex.from_product([q, ['z%d' % (9 - s) for s in range(steps)]]))
        init = np.arange(len(hp)) * 7.0 - 3 if an else None
        for seed, n in ((0, 6), (4, 6), (4, 9)):
            sc = g.predict_scenarios(quant, n_scen=n, x=x, init_obs=init, random_state=seed)
            for state, form in itertools.product((1, 2), ('array', 'table')):
                np.random.seed(state)
                kw = dict(quantiles=quant, x=x) if form == 'array' else dict(quantiles=tab)
                with Spy(g) as spy:
                    got = g.predict_trees(n_scen=n, init_obs=init, random_state=seed, **kw)
                ctx.step()
                judge_trees(ctx, spy, got, sc, 'trees', '%s steps=%d seed=%d n=%d %s' % (case, steps, seed, n, form))
                ctx.state(tuple(hp), an, steps, seed, n, state, form)
    ctx.trace()


def foretrees(ctx, case):
    fc, an = case['fc'], case['an']
    q = np.array([0.1, 0.4, 0.9])
    x, y = fm.data(72, 2, hours=[0, 5, 17], seed=8)
    f = fm.fitted(fc, x, y, q_vect=q, n_scen_fit=4, additional_node=an, nodes_at_step=[2, 3])
    for rows in ([4, 0, 8], [1]):
        qx = x.iloc[rows]
        for seed in (0, 1):
            sc = f.predict_scenarios(qx.copy(), n_scen=7, random_state=seed)
            for state in (1, 2):
                np.random.seed(state)
                with Spy(f.scengen) as spy:
                    got = f.predict_trees(qx.copy(), n_scen=7, random_state=seed)
                ctx.step()
                judge_trees(ctx, spy, got if isinstance(got, list) else [got], sc, 'foretrees:%s' % fc, '%s rows %s seed %d' % (case, rows, seed))
                ctx.state(fc, an, tuple(rows), seed, state)
    ctx.trace()
