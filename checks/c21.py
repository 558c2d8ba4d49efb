"""C21: baselines: every series length, number of steps and season length within bounds, all-distinct values."""
import copy
import itertools
import contextlib
import io
import numpy as np
import pandas as pd

PID = 'C21'
PREFORK = True
BOUNDS = dict(quick='persistence: 3..9 rows x 1..5 steps; seasonal persistence: the same x seasons 1..6 x validation ratios; every prefix and repetition; empirical distribution: every value '
                    'pattern of 3 levels on 2 times of day x 3 days, 1..3 targets, every order of prediction rows', thorough='more rows, steps and seasons; 4 days')
ASSUMPTIONS = ['rows given to the seasonal baseline follow the data it was fitted on, and those cover at least one season', 'probabilities are defined for times of day seen in training']

Q = np.array([0.1, 0.5, 0.8])
LEVS = [[500000.0, 500001.0, 500002.0], [1e-9, 2e-9, 0.0], [1.0, 1.0 + 1e-7, -1.0], [-3.0, 3.0, 0.5], [0.1 + 0.2, 0.3, 0.7], [1e12, 1.0, -1e-12]]


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for n in range(1, 6 if q else 8):
        res.append(dict(kind='pers', n=n))
        for s in range(1, 7 if q else 10):
            for vr in (None, 0.3, 0.5):
                res.append(dict(kind='seas', n=n, s=s, vr=vr))
    for k in (1, 2, 3):
        for first in itertools.product(range(3), repeat=2):
            res.append(dict(kind='distr', k=k, first=list(first), days=3 if q else 4))
    for step in ('1h', '30min', '15min', '6h'):
        res.append(dict(kind='times', step=step))
    for lev in range(len(LEVS)):
        res.append(dict(kind='close', lev=lev))
    return res


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['kind']](ctx, case)


def val(i):
    return 3.0 * i + 0.01 * i * i


def frame(lo, hi):
    ix = pd.date_range('2021-01-01', periods=hi, freq='1h')[lo:]
    return pd.DataFrame({'c': np.arange(lo, hi) * -1.0, 'y': [val(i) for i in range(lo, hi)]}, index=ix)


def quants(ctx, f, x, base, n, key, info):
    e = f.err_distr
    qn = np.asarray(f.predict_quantiles(x, dataframe=False))
    for i in range(len(x)):
        d = e[x.index[i].hour] if f.conditional_to_hour else e
        ctx.eq(qn[i], base[i][:, None] + np.asarray(d), key + ':quantiles', '%s row %d' % (info, i), tol=1e-9)
    qd = f.predict_quantiles(x)
    ctx.ok(qd.index.equals(x.index), key + ':quantile-index', info)
    for s, k in itertools.product(range(n), range(3)):
        ctx.eq(qd.iloc[:, [c for c in range(qd.shape[1]) if qd.columns[c] == (f.target_cols[s], Q[k])]].values[:, 0], qn[:, s, k], key + ':quantile-table', info, tol=0)


def history(ctx, f, x, base, key, info):
    """repetition, every prefix and every future perturbation"""
    for k in range(1, len(x) + 1):
        ctx.eq(f.predict(x.iloc[:k]).values, base[:k], key + ':prefix', '%s prefix %d' % (info, k), tol=0)
        z = x.copy()
        z.iloc[k - 1, 1] += 1e6
        got = f.predict(z).values
        ctx.ok((got[:k - 1] == base[:k - 1]).all(), key + ':future', '%s: row %d changes earlier forecasts' % (info, k - 1))
        ctx.step(2)
    ctx.eq(f.predict(x).values, base, key + ':repeat', info, tol=0)


def pers(ctx, case):
    from pyforecaster.forecasting_models.benchmarks import Persistent
    n = case['n']
    for L, hour, vr in itertools.product((30, 54), (False, True), (None, 0.5)):
        if hour and L * (vr or 1) < 26 + n:
            continue
        x = frame(0, L)
        x0 = x.copy()
        f = Persistent('y', n_sa=n, q_vect=Q, conditional_to_hour=hour, val_ratio=vr).fit(x)
        ctx.ok(x.equals(x0), 'pers:input')
        used = x.iloc[L - int(L * vr):] if vr else x
        res = np.array([[val(x.index.get_loc(t) + 1 + s) - val(x.index.get_loc(t)) for s in range(n)] for t in used.index[:len(used) - n]])
        if not hour:
            ctx.eq(np.asarray(f.err_distr), np.quantile(res, Q, axis=0).T, 'pers:errors', str(case), tol=1e-8)
        else:
            for h in range(24):
                m = used.index[:len(used) - n].hour == h
                if m.any():
                    ctx.eq(np.asarray(f.err_distr[h]), np.quantile(res[m], Q, axis=0).T, 'pers:errors', '%s hour %d' % (case, h), tol=1e-8)
        for m in range(1, 10):
            te = frame(L, L + m)
            t0 = te.copy()
            got = f.predict(te)
            info = '%s %d rows' % (case, m)
            exp = np.array([[val(L + i)] * n for i in range(m)])
            ctx.eq(got.values, exp, 'pers:value', info, tol=1e-12)
            ctx.ok(got.index.equals(te.index) and got.shape == (m, n) and te.equals(t0), 'pers:labels', info)
            if f.conditional_to_hour and any(h not in f.err_distr for h in te.index.hour):
                continue
            quants(ctx, f, te, exp, n, 'pers', info)
            history(ctx, f, te, exp, 'pers', info)
            ctx.state(n, L, hour, str(vr), m)
            rev = te.iloc[::-1]
            ctx.eq(f.predict(rev).values, exp[::-1], 'pers:order', info, tol=0)
        ctx.trace()


def seas(ctx, case):
    from pyforecaster.forecasting_models.benchmarks import SeasonalPersistent
    n, s, vr = case['n'], case['s'], case['vr']
    for L in (23, 24, 30):
        x = frame(0, L)
        x0 = x.copy()
        n_val = int(L * vr) if vr else L
        if n_val < n + 2:
            continue
        f = SeasonalPersistent('y', seasonality=s, n_sa=n, q_vect=Q, val_ratio=vr).fit(x)
        ctx.ok(x.equals(x0), 'seas:input')

        def expected(i):
            """forecast of row at absolute time i: last value of the same season at or before i"""
            row = []
            for k in range(1, n + 1):
                t = i + k
                while t > i:
                    t -= s
                row.append(val(t))
            return row
        if vr:
            lo = L - n_val
            res = np.array([[val(i + 1 + k) - expected(i)[k] for k in range(n)] for i in range(lo, L - n)])
            ctx.eq(np.asarray(f.err_distr), np.quantile(res, Q, axis=0).T, 'seas:errors', '%s L=%d' % (case, L), tol=1e-8)
        for m in range(1, 10):
            te = frame(L, L + m)
            t0 = te.copy()
            info = '%s trained on %d rows, %d predicted' % (case, L, m)
            got = f.predict(te)
            exp = np.array([expected(L + i) for i in range(m)])
            ctx.eq(got.values, exp, 'seas:value', info, tol=1e-12)
            ctx.ok(got.index.equals(te.index) and got.shape == (m, n) and te.equals(t0), 'seas:labels', info)
            quants(ctx, f, te, exp, n, 'seas', info)
            history(ctx, f, te, exp, 'seas', info)
            ctx.state(str(case), L, m)
        g = copy.deepcopy(f)
        z = frame(5, 5 + L)
        g.fit(z)
        ctx.eq(g.predict(frame(5 + L, 9 + L)).values, SeasonalPersistent('y', seasonality=s, n_sa=n, q_vect=Q, val_ratio=vr).fit(z).predict(frame(5 + L, 9 + L)).values, 'seas:refit', str(case), tol=0)
        ctx.trace()


def counts(y, tod, t, v):
    rows = [i for i in range(len(y)) if y.index[i].time() == tod]
    return sum(y[t].iloc[i] == v for i in rows) / len(rows)


def judge_distr(ctx, f, y, x, key, info):
    sup = sorted(set(y.values.ravel()))
    p = f.predict_probabilities(x)
    m = f.predict(x)
    if not ctx.ok(p.index.equals(x.index) and m.index.equals(x.index), key + ':index', '%s: probabilities are labelled %s' % (info, list(p.index))):
        return
    ctx.ok(sorted(p.columns.get_level_values(0).unique()) == sorted(y.columns) and sorted(m.columns) == sorted(y.columns), key + ':labels', '%s %s %s' % (info, list(p.columns), list(m.columns)))
    for t in y.columns:
        pt = p[t]
        if not ctx.ok([float(c) for c in pt.columns] == sup, key + ':support', '%s %s' % (info, list(pt.columns))):
            continue
        for i in range(len(x)):
            e = [counts(y, x.index[i].time(), t, v) for v in sup]
            ctx.eq(pt.iloc[i].values, np.array(e), key + ':probability', '%s row %s target %s' % (info, x.index[i], t), tol=1e-9)
            ctx.ok(abs(m[t].iloc[i] - np.dot(e, sup)) < 1e-9 * max(1, abs(np.dot(e, sup))), key + ':mean', '%s row %s target %s: %s instead of %s' % (info, x.index[i], t, m[t].iloc[i], np.dot(e, sup)))
    ctx.step()


def distr(ctx, case):
    from pyforecaster.forecasting_models.benchmarks import DiscreteDistr
    k, days = case['k'], case['days']
    lev = np.array([-1.5, 0.0, 4.0])
    ix = pd.date_range('2021-01-01', periods=2 * days, freq='12h')
    for rest in itertools.product(range(3), repeat=2 * days - 2):
        pat = list(case['first']) + list(rest)
        y = pd.DataFrame({('b', 'a', 'c')[j]: lev[[(p + j * (i % 3 + 1)) % 3 for i, p in enumerate(pat)]] for j in range(k)}, index=ix)
        y0 = y.copy()
        x = pd.DataFrame({'f': 1.0}, index=ix)
        f = DiscreteDistr(q_vect=Q).fit(x, y)
        ctx.ok(y.equals(y0), 'distr:input')
        for rows in (['2022-03-01 00:00', '2022-03-01 12:00', '2022-03-02 00:00'], ['2022-03-01 12:00'], ['2022-03-01 12:00', '2022-03-04 12:00', '2022-03-01 00:00']):
            judge_distr(ctx, f, y, pd.DataFrame({'f': 0.0}, index=pd.DatetimeIndex(rows)), 'distr', '%s %s rows %s' % (k, pat, rows))
        ctx.state(k, tuple(pat))
    ctx.trace()


def times(ctx, case):
    """other sampling times, gaps and unordered prediction rows, more days"""
    from pyforecaster.forecasting_models.benchmarks import DiscreteDistr
    ix = pd.date_range('2021-01-01', '2021-01-05', freq=case['step'], inclusive='left')
    rng = np.random.default_rng(3)
    for kk, drop in itertools.product((1, 3), (False, True)):
        y = pd.DataFrame(rng.integers(0, 4, size=(len(ix), kk)), index=ix, columns=['t%d' % j for j in range(kk)]) * 2 - 1
        if drop:
            y = y.drop(y.index[[3, 4, len(y) // 2]]) if len(y) > 16 else y.iloc[:-1]
        f = DiscreteDistr().fit(pd.DataFrame({'f': 1}, index=y.index), y)
        fut = pd.date_range('2022-01-01', periods=len(ix) // 4, freq=case['step'])
        for sel in (np.arange(len(fut)), np.arange(len(fut))[::-1], np.array([0]), np.array([1, 3])):
            judge_distr(ctx, f, y, pd.DataFrame({'f': 0}, index=fut[sel]), 'times', '%s drop=%s %s' % (case, drop, len(sel)))
        ctx.state(case['step'], kk, drop)
    ctx.trace()


def close(ctx, case):
    """distinct values which are close to each other, of opposite sign, or of very different size"""
    from pyforecaster.forecasting_models.benchmarks import DiscreteDistr
    lev = np.array(LEVS[case['lev']])
    for pat in itertools.product(range(3), repeat=4):
        ix = pd.date_range('2021-01-01', periods=4, freq='12h')
        y = pd.DataFrame({'b': lev[list(pat)], 'a': lev[[(p + i) % 3 for i, p in enumerate(pat)]]}, index=ix)
        f = DiscreteDistr().fit(pd.DataFrame({'f': 1.0}, index=ix), y)
        judge_distr(ctx, f, y, pd.DataFrame({'f': 0.0}, index=pd.DatetimeIndex(['2022-03-01 12:00', '2022-03-04 12:00', '2022-03-01 00:00'])), 'close', '%s' % (lev[list(pat)],))
        ctx.state(case['lev'], pat)
    ctx.trace()
