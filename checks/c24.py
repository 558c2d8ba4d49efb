"""C24: direct multi-step models: every (steps, single-step models) pair x feature selection x execution mode, each column against a model trained separately for that step."""
import contextlib
import io
import itertools
import numpy as np
import pandas as pd
from mc import sched

PID = 'C24'
PREFORK = True
BOUNDS = dict(quick='boosted hybrid and quantile forest: every (1..4 steps, 0..steps single models) x {no pruning, periodic pruning, pruning with recent lags, with bypass columns} x validation split on/off x 3 reductions of the '
                    'joint data; threaded/process path: every completion order of up to 4 jobs at fitting and prediction; energy-aware chain and plain boosted forecaster: 1..4 steps',
              thorough='up to 6 steps (orders up to 5 jobs), more reductions and periods')
ASSUMPTIONS = ['the base learners (LightGBM, quantile-forest) are deterministic for given data and parameters and trusted', 'the joint model of the boosted hybrid is judged through data on which it is exact to within 20 %']

LGB = dict(n_jobs=1, n_estimators=4, num_leaves=4, min_child_samples=2, max_depth=3)
Q = np.array([0.1, 0.5, 0.8])


def setup():
    import pyforecaster.forecasting_models.gradientboosters, pyforecaster.forecasting_models.randomforests  # noqa
    import lightgbm, quantile_forest  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    N = 4 if q else 6
    for n in range(1, N + 1):
        for s in range(n + 1):
            for prune in ('none', 'periodic', 'recent', 'bypass') if s else ('none',):
                for vr in (None, 0.4):
                    res.append(dict(kind='hybrid', n=n, s=s, prune=prune, vr=vr))
                    res.append(dict(kind='forest', n=n, s=s, prune=prune, vr=vr))
            if s < n:
                for red in (0, 0.5, 1) if q else (0, 0.3, 0.5, 0.7, 1):
                    res.append(dict(kind='joint', n=n, s=s, red=red))
            res.append(dict(kind='orders', n=n, s=s, full=n <= (3 if q else 5)))
        for c in (0, 1, 2):
            res.append(dict(kind='energy', n=n, c=c))
        res.append(dict(kind='plain', n=n))
    return res


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


def series(n_rows=44, n=4, seed=0):
    r = np.random.RandomState(seed)
    ix = pd.date_range('2021-01-01', periods=n_rows, freq='6h')
    return pd.DataFrame({'a': r.randn(n_rows).cumsum(), 'b': r.randn(n_rows)}, index=ix)


def dataset(n, prune):
    from pyforecaster.formatter import Formatter
    d = series(48, n)
    fo = Formatter(augment=prune == 'bypass').add_transform(['a', 'b'], lags=np.arange(6)).add_target_transform(['a'], lags=-np.arange(1, n + 1))
    x, y = fo.transform(d, time_features=False)
    y = y.copy()
    y.columns = ['s_%d' % (9 - k) for k in range(n)]           # labels not in alphabetical order
    kw = {}
    if prune != 'none':
        kw = dict(formatter=fo)
    if prune == 'recent':
        kw['keep_last_n_lags'] = 2
    if prune == 'bypass':
        kw['metadata_features'] = ['a', 'b']
    x = x.drop(columns=[c for c in ('a', 'b') if c in x.columns and prune != 'bypass'])
    return x, y, kw, fo


def lag_of(c):
    return int(str(c).split('lag_')[1].split('_')[0].split(')')[0].split("'")[0]) if 'lag_' in str(c) else None


def features(x, fo, k, prune):
    """features of step k (0-based): lag l is a whole day before step k+1 (samples of 6 h), plus recent lags or bypass columns"""
    if prune == 'none':
        return list(x.columns)
    m = pd.concat([t.metadata for t in fo.transformers])
    res = []
    for c in m.index:
        l = int(m.loc[c, 'lag'])
        if (k + 1 + l) % 4 == 0 or prune == 'recent' and l < 2:
            res.append(c)
    return res + (['a', 'b'] if prune == 'bypass' else [])


def split(x, y, vr):
    if vr is None:
        return x, y
    n = int(len(x) * (1 - vr))
    return x.iloc[:n], y.iloc[:n]


def hybrid(ctx, case):
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
    from lightgbm import LGBMRegressor
    n, s, prune = case['n'], case['s'], case['prune']
    x, y, kw, fo = dataset(n, prune)
    x_tr, y_tr, x_te = x.iloc[:30], y.iloc[:30], x.iloc[30:]
    kept = (x_tr.copy(), y_tr.copy(), x_te.copy())
    np.random.seed(3)
    f = LGBMHybrid(n_single=s, val_ratio=case['vr'], q_vect=Q, conditional_to_hour=False, **LGB, **kw).fit(x_tr, y_tr)
    p = f.predict(x_te)
    ctx.step(2)
    info = '%d steps, %d single, features %s' % (n, s, prune)
    ctx.state('hybrid', n, s, prune, case['vr'])
    ctx.ok(list(p.columns) == list(y.columns) and p.index.equals(x_te.index), 'hybrid:labels', '%s: %s' % (info, list(p.columns)))
    xt, yt = split(x_tr, y_tr, case['vr'])
    for k in range(s):
        cols = features(x, fo, k, prune)
        ref = LGBMRegressor(verbose=-1, **LGB).fit(xt[cols], yt.iloc[:, k]).predict(x_te[cols])
        ctx.eq(p.iloc[:, k].values, ref, 'hybrid:single', '%s step %d' % (info, k), tol=1e-9)
    qn = f.predict_quantiles(x_te, dataframe=False)
    qd = f.predict_quantiles(x_te)
    ctx.step(2)
    quantile_axes(ctx, f, p, qn, qd, y, 'hybrid', info)
    for k in range(n):
        off = qn[:, k, :] - p.values[:, k][:, None]
        ctx.eq(off, np.repeat(off[:1], len(off), 0), 'hybrid:quantile-offset', info, tol=1e-9)
        val = (x_tr, y_tr) if case['vr'] is None else (x_tr.iloc[len(xt):], y_tr.iloc[len(xt):])
        res = val[1].iloc[:, k].values - f.predict(val[0]).iloc[:, k].values
        ctx.eq(off[0], np.quantile(res, Q), 'hybrid:quantile-step', '%s step %d' % (info, k), tol=1e-9)
    ctx.ok(x_tr.equals(kept[0]) and y_tr.equals(kept[1]) and x_te.equals(kept[2]), 'hybrid:input-changed', info)
    ctx.sample(steps=n, single=s, first=p.iloc[0].round(3).tolist())
    ctx.trace()


def quantile_axes(ctx, f, p, qn, qd, y, key, info):
    ctx.eq(np.asarray(qn).shape, (len(p), y.shape[1], len(Q)), key + ':quantile-shape', info)
    ctx.ok(qd.index.equals(p.index) and len(set(qd.columns)) == y.shape[1] * len(Q), key + ':quantile-labels', info)
    for k, (c, j) in itertools.product(range(y.shape[1]), [(None, j) for j in range(len(Q))]):
        ctx.eq(qd[(y.columns[k], Q[j])].values, np.asarray(qn)[:, k, j], key + ':quantile-table', '%s step %d level %s' % (info, k, Q[j]), tol=0)
    ctx.ok(np.all(np.diff(qn, axis=2) >= -1e-12), key + ':quantile-order', info)


def joint(ctx, case):
    """data on which the joint model is exact: level of the step + jump of one feature"""
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
    n, s = case['n'], case['s']
    r = np.random.RandomState(1)
    ix = pd.date_range('2021-01-01', periods=160, freq='1h')
    x = pd.DataFrame({'u': r.choice([-1.0, 1.0], 160), 'v': r.choice([0.0, 1.0], 160)}, index=ix)
    y = pd.DataFrame({'s_%d' % (9 - k): 100.0 * (k + 1) + 20 * ((x['u'] > 0) ^ (k % 2 == 1)) for k in range(n)}, index=ix)
    for seed in (0, 1):
        np.random.seed(seed)
        f = LGBMHybrid(n_single=s, red_frac_multistep=case['red'], q_vect=Q, n_jobs=1, n_estimators=60, num_leaves=31, min_child_samples=1, learning_rate=0.4).fit(x, y)
        for order in (np.arange(160), np.arange(159, -1, -3), np.array([7])):
            p = f.predict(x.iloc[order])
            ctx.step()
            ctx.state('joint', n, s, case['red'], seed, len(order))
            for k in range(n):
                bad = np.abs(p.iloc[:, k].values - y.iloc[order, k].values) > 4
                ctx.ok(not np.any(bad), 'joint:step', '%d steps, %d single, reduction %s: step %d: %s vs %s' % (
                    n, s, case['red'], k, p.iloc[:, k].values[bad][:3], y.iloc[order, k].values[bad][:3]))
    ctx.sample(steps=n, single=s, reduction=case['red'])
    ctx.trace()


def forest(ctx, case):
    from pyforecaster.forecasting_models.randomforests import QRF
    from quantile_forest import RandomForestQuantileRegressor as RF
    n, s, prune = case['n'], case['s'], case['prune']
    x, y, kw, fo = dataset(n, prune)
    x_tr, y_tr, x_te = x.iloc[:30], y.iloc[:30], x.iloc[30:]
    kept = (x_tr.copy(), y_tr.copy(), x_te.copy())
    pars = dict(n_estimators=5, random_state=0, min_samples_leaf=2)
    f = QRF(n_single=s, parallel=False, val_ratio=case['vr'], q_vect=Q, **pars, **kw).fit(x_tr, y_tr)
    p = f.predict(x_te)
    ctx.step(2)
    info = '%d steps, %d single, features %s' % (n, s, prune)
    ctx.state('forest', n, s, prune, case['vr'])
    ctx.ok(list(p.columns) == list(y.columns) and p.index.equals(x_te.index), 'forest:labels', '%s: %s' % (info, list(p.columns)))
    xt, yt = split(x_tr, y_tr, case['vr'])
    qn = f.predict_quantiles(x_te, dataframe=False)
    qd = f.predict_quantiles(x_te)
    q1 = f.predict_quantiles(x_te, quantiles=[0.3, 0.9])
    ctx.step(3)
    quantile_axes(ctx, f, p, qn, qd, y, 'forest', info)
    for k in range(n):
        if k < s:
            cols = features(x, fo, k, prune)
            m = RF(**pars).fit(xt[cols], yt.iloc[:, k])
            pick = lambda a: a
        else:
            cols = list(x.columns)
            m = RF(**pars).fit(xt, yt.iloc[:, s:])
            pick = (lambda a: a) if n - s == 1 else (lambda a: a[:, k - s])
        ctx.eq(p.iloc[:, k].values, pick(m.predict(x_te[cols], quantiles='mean')), 'forest:mean', '%s step %d' % (info, k), tol=1e-9)
        ref = pick(m.predict(x_te[cols], quantiles=list(Q)))
        ctx.eq(qn[:, k, :], ref, 'forest:quantiles', '%s step %d' % (info, k), tol=1e-9)
        ref = pick(m.predict(x_te[cols], quantiles=[0.3, 0.9]))
        for j, a in enumerate((0.3, 0.9)):
            ctx.eq(q1[(y.columns[k], a)].values, ref[:, j], 'forest:asked-quantiles', '%s step %d level %s' % (info, k, a), tol=1e-9)
    ctx.ok(x_tr.equals(kept[0]) and y_tr.equals(kept[1]) and x_te.equals(kept[2]), 'forest:input-changed', info)
    ctx.trace()


def orders(ctx, case):
    import pyforecaster.forecasting_models.gradientboosters as gb
    import pyforecaster.forecasting_models.randomforests as rf
    n, s = case['n'], case['s']
    x, y, kw, fo = dataset(n, 'periodic')
    y = y + 20.0 * np.arange(n)                                # the joint model must depend on the step it is asked for
    x_tr, y_tr, x_te = x.iloc[:30], y.iloc[:30], x.iloc[30:]

    def hyb(par):
        np.random.seed(4)
        return gb.LGBMHybrid(n_single=s, parallel=par, q_vect=Q, **{**LGB, 'n_estimators': 12, 'num_leaves': 8, 'max_depth': -1}, **kw).fit(x_tr, y_tr)

    def fst(par):
        return rf.QRF(n_estimators=4, random_state=0, n_single=s, parallel=par, q_vect=Q, **kw).fit(x_tr, y_tr)

    for name, mk, mod in (('hybrid', hyb, gb), ('forest', fst, rf)):
        f0 = mk(False)
        p0, q0 = f0.predict(x_te), f0.predict_quantiles(x_te)
        jobs = max(s, n - s)
        perms = list(itertools.permutations(range(jobs)))
        if not case['full']:
            perms = perms[:: max(1, len(perms) // 6)]
        for o in perms:
            with sched.executor_order(mod, o):
                f1 = mk(True)
            ctx.step()
            for o2 in perms[:6]:
                log = []
                with sched.executor_order(mod, o2, log):
                    p1, q1 = f1.predict(x_te), f1.predict_quantiles(x_te)
                ctx.step(2)
                ctx.state('order', name, n, s, o, o2, tuple(log))
                info = '%s %d steps %d single fit order %s predict order %s' % (name, n, s, o, o2)
                ctx.ok(p1.columns.equals(p0.columns) and p1.index.equals(p0.index) and q1.columns.equals(q0.columns), name + ':order-labels', info)
                ctx.eq(p1.values, p0.values, name + ':order', info, tol=0)
                ctx.eq(q1.values, q0.values, name + ':order-quantiles', info, tol=0)
    ctx.trace()


def energy(ctx, case):
    from pyforecaster.forecasting_models.gradientboosters import LGBEnergyAware
    from lightgbm import LGBMRegressor
    n = case['n']
    r = np.random.RandomState(case['c'])
    ix = pd.date_range('2021-01-01', periods=70, freq='1h')
    off = r.randint(0, 2, (70, 2)) * 1.0
    x = pd.DataFrame({'u': r.randn(70), 'force_off_-1': off[:, 0], 'force_off_2': off[:, 1]}, index=ix)
    y = pd.DataFrame({'s_%d' % (9 - k): 3 * x['u'] * (k + 1) - 4 * off[:, 0] * (k % 2 == 0) + 2 * off[:, 0] * (k % 2 == 1) + off[:, 1] for k in range(n)}, index=ix)
    if case['c'] == 2:
        x = x.rename(columns={'force_off_-1': 'plain'})                                    # no control feature at all
    f = LGBEnergyAware(n_single=n, q_vect=Q, **LGB).fit(x.iloc[:50], y.iloc[:50])

    def chain(rows, models=None):
        out, ms, bal = [], [], None
        for k in range(n):
            xk = x.iloc[rows].copy()
            if k:
                xk['e_unbalance'] = bal
            m = LGBMRegressor(verbose=-1, **LGB).fit(xk, y.iloc[rows, k]) if models is None else models[k]
            ms.append(m)
            a = m.predict(xk)
            z = xk.copy()
            for c in z.columns:
                if 'force_off' in c and '-' in c:
                    z[c] = 0
            b = m.predict(z)
            bal = (b - a) + (0 if bal is None else bal)
            out.append(a)
        return ms, np.array(out).T
    ms, _ = chain(np.arange(50))
    for rows in (np.arange(50, 70), np.arange(69, 40, -2), np.array([55])):
        p = f.predict(x.iloc[rows])
        ctx.step()
        ctx.state('energy', n, case['c'], len(rows))
        ctx.ok(list(p.columns) == list(y.columns) and p.index.equals(x.index[rows]), 'energy:labels', str(case))
        ctx.eq(p.values, chain(rows, ms)[1], 'energy:chain', '%s rows %s' % (case, rows[:3]), tol=1e-7)
    ctx.trace()


def plain(ctx, case):
    from pyforecaster.forecaster import LGBForecaster
    from lightgbm import LGBMRegressor
    n = case['n']
    x, y, kw, fo = dataset(n, 'none')
    x_tr, y_tr, x_te = x.iloc[:30], y.iloc[:30], x.iloc[30:]
    for vr in (None, 0.4):
        f = LGBForecaster(val_ratio=vr, q_vect=Q, conditional_to_hour=False, n_jobs_predict=1, **LGB).fit(x_tr, y_tr)
        p = f.predict(x_te)
        ctx.step(2)
        ctx.state('plain', n, vr)
        xt, yt = split(x_tr, y_tr, vr)
        ctx.ok(list(p.columns) == list(y.columns) and p.index.equals(x_te.index), 'plain:labels', str(case))
        for k in range(n):
            ref = LGBMRegressor(verbose=-1, **LGB).fit(xt, yt.iloc[:, k]).predict(x_te)
            ctx.eq(p.iloc[:, k].values, ref, 'plain:step', '%s step %d' % (case, k), tol=1e-9)
        quantile_axes(ctx, f, p, f.predict_quantiles(x_te, dataframe=False), f.predict_quantiles(x_te), y, 'plain', str(case))
    ctx.trace()
