"""C10: calibration of quantiles: every (forecaster, validation ratio, hour coverage, steps, levels, conditioning, cap) and every row."""
import itertools
import numpy as np
import pandas as pd
from mc import fcmodel as fm

PID = 'C10'
PREFORK = True
BOUNDS = dict(quick='base class with a table model: validation ratio x rows 1..60 x steps 1..3 x levels 1..4 x hour coverage x conditioning x cap; '
                    '10 real forecasters x 3 ratios x 2 hour coverages x 1..3 steps; baselines x seasons x ratios x 1..5 steps; 4 networks; array/table conversions for all shapes up to 4x4x4; pmf for all grids of 4 levels',
              thorough='rows 1..96, every ratio k/12, more levels and all forecasters with conditioning on and off')
ASSUMPTIONS = ['levels are given in increasing order', 'empirical quantile = linear interpolation between order statistics (numpy default)',
               'forest forecasters produce quantiles from the forest, hence only the split, order and layout clauses apply to them',
               'networks scale their inputs with the statistics of the whole table, hence only the quantile clauses apply to them', 'probabilistic networks: see C30']
QS = {1: [0.5], 2: [0.1, 0.9], 3: [0.05, 0.4, 0.8], 4: [0.0, 0.25, 0.75, 1.0]}


def setup():
    import lightgbm  # noqa
    import pyforecaster.forecaster, pyforecaster.forecasting_models.gradientboosters, pyforecaster.forecasting_models.randomforests  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    ns = (1, 2, 5, 23, 24, 25, 30, 48, 60) if q else (1, 2, 3, 5, 7, 11, 23, 24, 25, 26, 30, 47, 48, 49, 60, 72, 73, 96)
    ratios = (None, 0.1, 0.25, 1 / 3, 0.5, 0.8, 1.0) if q else (None,) + tuple(k / 12 for k in range(1, 13))
    for n, r in itertools.product(ns, ratios):
        res.append(dict(kind='split', n=n, ratio=r))
    for hours, steps, nq, cond, cap in itertools.product(('all', 'half', 'two', 'tz', 'some23'), (1, 2, 3), (1, 2, 3, 4) if not q else (1, 2, 4), (True, False),
                                                         (None, 30) if q else (None, 3, 30, 500)):
        res.append(dict(kind='stub', hours=hours, steps=steps, nq=nq, cond=cond, cap=cap))
    fcs = ('lin', 'ridge', 'lgb', 'hybrid1', 'hybrid2', 'energy', 'qrf0', 'qrf1', 'rff', 'addrff')
    for fc, hours, r, steps in itertools.product(fcs, ('all', 'half'), (None, 0.25, 0.5), (1, 2, 3)):
        for cond in ((True,) if fc in ('qrf0', 'qrf1') else (True, False)):
            if fc in ('hybrid2',) and steps < 2 or fc == 'qrf1' and steps < 1:
                continue
            res.append(dict(kind='real', fc=fc, hours=hours, ratio=r, steps=steps, cond=cond))
    for n, s, k in itertools.product(range(1, 5), repeat=3):
        res.append(dict(kind='layout', n=n, s=s, k=k))
    for g in itertools.combinations_with_replacement(range(5), 3 if q else 4):
        res.append(dict(kind='pmf', g=list(g)))
    for n, s, vr, L in itertools.product((1, 2, 3, 5), (0, 1, 2, 3, 5, 24), (None, 0.5, 0.7), (31, 72) if q else (31, 48, 72, 97)):
        if s == 0 or vr:                       # season 0: persistence
            res.append(dict(kind='bench', n=n, s=s, vr=vr, L=L))
    for k, cond, vr in itertools.product(('ffnn', 'lstm', 'picnn', 'picnn-bounds') if q else ('nn', 'ffnn', 'ffnn-heads', 'ffnn-selector', 'lstm', 'picnn', 'picnn-aug', 'picnn-bounds', 'piqcnn', 'rec'), (True, False), (0.5, 0.2)):
        res.insert(0, dict(kind='net', k=k, cond=cond, vr=vr))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


HOURS = dict(all=list(range(24)), half=list(range(0, 24, 2)), two=[3, 20], some23=[h for h in range(24) if h != 7], tz=list(range(24)))


def stubclass():
    from pyforecaster.forecaster import ScenarioGenerator

    class Stub(ScenarioGenerator):
        """point forecast = fixed function of the row, so every residual is known"""
        seen = None

        def fit(self, x, y):
            xt, yt, xv, yv = self.train_val_split(x, y)
            self.train_rows, self.val_rows = xt, xv
            super().fit(xv, yv)
            return self

        def predict(self, x, **kw):
            p = np.stack([x.iloc[:, 0].values * (k + 1) + x.iloc[:, 1].values for k in range(len(self.target_cols))], axis=1)
            return pd.DataFrame(p, index=x.index, columns=self.target_cols)

        def _predict_quantiles(self, x, **kw):
            from pyforecaster.forecaster import LinearForecaster
            return LinearForecaster._predict_quantiles(self, x, **kw)
    return Stub


def split(ctx, case):
    n, r = case['n'], case['ratio']
    x, y = fm.data(n, 2, seed=3)
    st = stubclass()(q_vect=np.array([0.5]), val_ratio=r)
    xt, yt, xv, yv = st.train_val_split(x, y)
    ctx.step(1)
    ctx.state('split', n, r)
    k = 0 if r is None else len(xv)
    if r is None:
        ctx.ok(xt.equals(x) and xv.equals(x) and yt.equals(y) and yv.equals(y), 'split:none', 'without a validation share the whole data must be used for both')
    else:
        ctx.ok(xt.equals(x.iloc[:n - k]) and yt.equals(y.iloc[:n - k]), 'split:train', 'n=%d ratio=%s: training rows are not the leading rows' % (n, r))
        ctx.ok(xv.equals(x.iloc[n - k:]) and yv.equals(y.iloc[n - k:]), 'split:val', 'n=%d ratio=%s: validation rows are not the trailing rows' % (n, r))
        ctx.ok(abs(k - n * r) <= 1, 'split:size', 'n=%d ratio=%s: %d validation rows' % (n, r, k))
    ctx.trace()


def oracle(res, hours, cond, q, all24):
    """{hour: (steps, levels)}"""
    out = {}
    allh = set(hours) == set(range(24))
    for h in range(24):
        rows = [i for i in range(len(res)) if (not cond) or (not allh) or hours[i] == h]
        out[h] = np.array([[fm.lin_quantile(res[rows, s], a) for a in q] for s in range(res.shape[1])])
    return out


def judge_quantiles(ctx, f, xt, exp, q, steps, key, info, point=None):
    p = f.predict(xt.copy()) if point is None else point
    arr = f.predict_quantiles(xt.copy(), dataframe=False)
    tab = f.predict_quantiles(xt.copy(), dataframe=True)
    ctx.step(3)
    if not ctx.ok(isinstance(arr, np.ndarray) and arr.shape == (len(xt), steps, len(q)), key + ':shape', '%s: array of quantiles has shape %s' % (info, getattr(arr, 'shape', type(arr)))):
        return
    if exp is not None:
        want = np.array([[[p.values[i, s] + exp[xt.index[i].hour][s][k] for k in range(len(q))] for s in range(steps)] for i in range(len(xt))])
        ctx.eq(arr, want, key + ':value', info)
    ctx.ok((np.diff(arr, axis=2) >= -1e-9).all(), key + ':monotone', '%s: quantiles decrease with the level' % info)
    good = isinstance(tab, pd.DataFrame) and tab.shape == (len(xt), steps * len(q)) and tab.index.equals(xt.index)
    if ctx.ok(good, key + ':table', '%s: table of quantiles has shape %s' % (info, getattr(tab, 'shape', type(tab)))):
        for s, c in enumerate(f.target_cols):
            for k, a in enumerate(q):
                if (c, a) not in tab.columns:
                    ctx.fail(key + ':labels', '%s: column %s missing in %s' % (info, (c, a), list(tab.columns)[:6]))
                    return
                if not np.allclose(tab[(c, a)].values, arr[:, s, k], atol=1e-9, rtol=0):
                    ctx.fail(key + ':table-array', '%s: table column %s holds %s, array %s' % (info, (c, a), tab[(c, a)].values[:3], arr[:3, s, k]))
                    return


def stub(ctx, case):
    hours, steps, q = HOURS[case['hours']], case['steps'], np.array(QS[case['nq']])
    x, y = fm.data(72, steps, hours=hours, seed=steps, tz='Europe/Zurich' if case['hours'] == 'tz' else None)
    f = stubclass()(q_vect=q, conditional_to_hour=case['cond'], max_scengen_rows=case['cap'], val_ratio=None, n_scen_fit=5)
    x0, y0 = x.copy(), y.copy()
    f.fit(x, y)
    ctx.ok(x.equals(x0) and y.equals(y0), 'stub:input', 'the inputs of fit were changed')
    xs, ys = fm.calibration_rows(f, x, y)
    point = f.predict(xs)
    res = ys.values - point.values
    exp = oracle(res, list(xs.index.hour), case['cond'], q, None)
    for s in range(steps):
        ctx.state('stub', case['hours'], s, case['nq'], case['cond'], case['cap'])
    qx, _ = fm.data(24, 1, hours=list(range(24)), seed=77)
    judge_quantiles(ctx, f, qx, exp, q, steps, 'stub', str(case))
    perm = qx.iloc[[5, 3, 3, 20, 0]]
    judge_quantiles(ctx, f, perm, exp, q, steps, 'stub-order', str(case))
    judge_quantiles(ctx, f, qx.iloc[[7]], exp, q, steps, 'stub-one', str(case))
    ctx.trace()
    ctx.sample(case=case, err_hour0=np.round(exp[0], 4).tolist())


def real(ctx, case):
    fc, steps, q = case['fc'], case['steps'], np.array([0.1, 0.5, 0.8])
    kw = dict(q_vect=q, val_ratio=case['ratio'], n_scen_fit=4)
    if case['cond'] is False:
        kw['conditional_to_hour'] = False
    n = 72 if case['ratio'] != 0.5 else 60
    x, y = fm.data(n, steps, hours=HOURS[case['hours']], seed=11)
    info = str(case)
    f = fm.fitted(fc, x, y, **kw)
    n_val = len(f.train_val_split(x, y)[2])
    n_tr = n if case['ratio'] is None else n - n_val
    qx, _ = fm.data(24, 1, hours=list(range(24)), seed=78)
    ctx.step(2)
    base = f.predict(qx.copy())
    ctx.ok(isinstance(base, pd.DataFrame) and base.shape == (24, steps) and list(base.columns) == list(y.columns) and base.index.equals(qx.index), 'real:%s:point' % fc,
           '%s: point forecast has shape %s' % (info, getattr(base, 'shape', None)))
    if case['ratio'] is not None:
        # training looks at the leading part only, and at all of it
        y2, x2 = y.copy(), x.copy()
        y2.iloc[n_tr:] = y2.iloc[n_tr:] * 3 + 50
        x2.iloc[n_tr:] = x2.iloc[n_tr:] - 7
        f2 = fm.fitted(fc, x2, y2, **kw)
        ctx.eq(f2.predict(qx.copy()).values, base.values, 'real:%s:validation-used-in-training' % fc, info)
        f3 = fm.fitted(fc, x.iloc[:n_tr], y.iloc[:n_tr], **dict(kw, val_ratio=None))
        ctx.eq(f3.predict(qx.copy()).values, base.values, 'real:%s:training-rows' % fc, info)
        ctx.step(2)
    exp = None
    if not fc.startswith('qrf'):
        xv, yv = (x, y) if case['ratio'] is None else (x.iloc[n_tr:], y.iloc[n_tr:])
        res = yv.values - f.predict(xv.copy()).values
        exp = oracle(res, list(xv.index.hour), case['cond'], q, None)
    ctx.state('real', fc, case['hours'], case['ratio'], steps, case['cond'])
    judge_quantiles(ctx, f, qx, exp, q, steps, 'real:' + fc, info)
    judge_quantiles(ctx, f, qx.iloc[[4]], exp, q, steps, 'real1:' + fc, info)
    # predicting does not change the calibration
    judge_quantiles(ctx, f, qx, exp, q, steps, 'real2:' + fc, info)
    ctx.trace()


def bench(ctx, case):
    """self-supervised baselines: the errors of the forecasts of the held-out rows against the observations that followed"""
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    n, s, vr, L = case['n'], case['s'], case['vr'], case['L']
    q = np.array([0.1, 0.5, 0.8])
    rng = np.random.default_rng(L)
    vals = rng.normal(size=L + 30)
    X = pd.DataFrame({'c': -1.0, 'y': vals}, index=pd.date_range('2021-03-01', periods=L + 30, freq='1h'))
    x, te = X.iloc[:L], X.iloc[L:]
    n_val = L if vr is None else int(L * vr)
    for cond in (True, False):
        if n_val <= n + 2:
            continue
        mk = (lambda **k: Persistent('y', n_sa=n, q_vect=q, conditional_to_hour=cond, n_scen_fit=4, **k)) if s == 0 else \
            (lambda **k: SeasonalPersistent('y', seasonality=s, n_sa=n, q_vect=q, conditional_to_hour=cond, n_scen_fit=4, **k))
        f = mk(val_ratio=vr).fit(x.copy())
        if s and L - n_val < s:
            continue
        # forecasts of the held-out rows by a model that knows the leading rows only
        g = f if s == 0 else mk(val_ratio=None).fit(x.iloc[:L - n_val].copy())
        xv = x.iloc[L - n_val:]
        hat = g.predict(xv.copy()).values
        m = n_val - n
        res = np.array([[vals[L - n_val + i + 1 + k] - hat[i, k] for k in range(n)] for i in range(m)])
        exp = oracle(res, list(xv.index.hour[:m]), cond, q, None)
        ctx.step(2)
        ctx.state('bench', n, s, vr, L, cond)
        judge_quantiles(ctx, f, te, exp, q, n, 'bench', '%s conditional %s' % (case, cond))
        judge_quantiles(ctx, f, te.iloc[[0]], exp, q, n, 'bench1', '%s conditional %s' % (case, cond))
    ctx.trace()


def net(ctx, case):
    """networks without a distribution of their own use the residuals of the validation rows"""
    from mc import nnmodel as nn
    q = np.array([0.1, 0.5, 0.8])
    x, y = nn.data(3, rows=120)
    f = nn.make(case['k'], q_vect=q, val_ratio=case['vr'], n_epochs=1, conditional_to_hour=case['cond'])
    np.random.seed(4)
    f.fit(x.copy(), y.copy())
    lo = len(f.train_val_split(x, y)[0])
    xv, yv = x.iloc[lo:], y.iloc[lo:]
    res = yv.values - f.predict(xv.copy()).values
    exp = oracle(res, list(xv.index.hour), case['cond'], q, None)
    qx = x.iloc[[3, 50, 51, 90, 17]]
    p = f.predict(qx.copy())
    ctx.step(3)
    ctx.state('net', case['k'], case['cond'], case['vr'])
    arr = np.asarray(f.predict_quantiles(qx.copy(), dataframe=False))
    if ctx.ok(arr.shape == (5, 2, 3), 'net:shape', '%s: array of quantiles has shape %s' % (case, arr.shape)):
        want = np.array([[[p.values[i, s] + exp[qx.index[i].hour][s][k] for k in range(3)] for s in range(2)] for i in range(5)])
        ctx.eq(arr, want, 'net:value', str(case), tol=1e-4 * np.abs(want).max())
        ctx.ok((np.diff(arr, axis=2) >= -1e-4).all(), 'net:monotone', str(case))
    ctx.trace()


def layout(ctx, case):
    n, s, k = case['n'], case['s'], case['k']
    st = stubclass()(q_vect=np.linspace(0.1, 0.9, k), nodes_at_step=None)
    st.target_cols = pd.Index(['b', 'a', 'c', 'z'][:s])
    arr = np.arange(n * s * k, dtype=float).reshape(n, s, k)
    idx = pd.date_range('2021-01-01', periods=n, freq='1h')
    ref = arr.copy()
    tab = st.quantiles_to_df(arr, idx)
    ctx.step(1)
    ctx.state('layout', n, s, k)
    for i, j, l in itertools.product(range(n), range(s), range(k)):
        ctx.ok(tab[(st.target_cols[j], st.q_vect[l])].iloc[i] == ref[i, j, l], 'layout:df', 'label (%s,%s) holds the wrong number' % (st.target_cols[j], st.q_vect[l]))
    ctx.eq(st.quantiles_to_numpy(tab), ref, 'layout:roundtrip')
    ctx.eq(arr, ref, 'layout:input')
    from pyforecaster.forecasting_models.randomforests import QRF
    qf = QRF(q_vect=np.linspace(0.1, 0.9, k))
    qf.target_cols = st.target_cols
    ctx.eq(qf.quantiles_to_numpy(qf.quantiles_to_df(ref.copy(), idx)), ref, 'layout:qrf-roundtrip', 'forest forecaster, shape %s' % ((n, s, k),))
    ctx.trace()


def pmf(ctx, case):
    """probability mass from quantiles: share of predicted levels falling in each bin"""
    g = case['g']
    St = stubclass()
    k = len(g)
    st = St(q_vect=np.linspace(0.1, 0.9, k))
    st.target_cols = pd.Index(['a', 'b'])
    vals = np.array([[sorted(g), [v + 1 for v in sorted(g)]]], dtype=float)
    st._predict_quantiles = lambda x, **kw: vals.copy()
    x = pd.DataFrame({'f': [0.0]}, index=pd.date_range('2021', periods=1, freq='1h'))
    edges = np.array([-0.5, 0.5, 1.5, 2.5, 3.5, 4.5, 5.5])
    got = st.predict_pmf(x, edges)
    ctx.step(1)
    ctx.state('pmf', tuple(g))
    exp = np.zeros((1, 2, 6))
    for j in range(2):
        for v in vals[0, j]:
            exp[0, j, int(v)] += 1 / k
    ctx.eq(got, exp, 'pmf:value', str(g))
    ctx.trace()
