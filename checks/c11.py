"""C11: row subsampling of the calibration data: every index pattern, size, cap and seed."""
import itertools
import numpy as np
import pandas as pd
from mc import fcmodel as fm

PID = 'C11'
PREFORK = True
BOUNDS = dict(quick='9 index kinds x n 1..9 (and 30) x every cap 1..n+1 x 12 seeds x 3 ways of giving the seed; every forecaster constructor x 9 limits; '
                    'selection frequency over 400 seeds',
              thorough='n 1..14 and 48, 60 seeds')
ASSUMPTIONS = ['the share of each hour is judged over all seeds of a fixed list (expected proportional), a single draw is a multinomial draw',
               'rows of equal timestamps may come in any relative order']
KINDS = ['hourly', 'daily', 'quarter', 'unsorted', 'dups', 'tz', 'range', 'reversed', 'twohours', 'ints-unsorted']


def setup():
    import lightgbm  # noqa
    import pyforecaster.forecaster, pyforecaster.forecasting_models.randomforests  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for kind in KINDS:
        for n in (list(range(1, 10)) + [30] if q else list(range(1, 15)) + [48]):
            res.append(dict(kind='select', ix=kind, n=n, seeds=12 if q else 60))
    for v in range(12):
        res.append(dict(kind='limits', v=v))
    for a, b, m in itertools.product((1, 3, 8), (1, 4), (2, 3, 6)):
        if m < a + b:
            res.append(dict(kind='share', a=a, b=b, m=m))
    for fc, cap in itertools.product(('lin', 'lgb', 'qrf0'), (1, 5, 24, 40, 72, 100)):
        res.append(dict(kind='effect', fc=fc, cap=cap))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def index(kind, n):
    if kind == 'hourly':
        return pd.date_range('2021-03-01', periods=n, freq='1h')
    if kind == 'daily':
        return pd.date_range('2021-03-01', periods=n, freq='1D')
    if kind == 'quarter':
        return pd.date_range('2021-03-01 05:00', periods=n, freq='15min')
    if kind == 'unsorted':
        ix = pd.date_range('2021-03-01', periods=n, freq='7h')
        return ix[[(5 * i + 2) % n if n % 5 else i ^ 1 if (i ^ 1) < n else i for i in range(n)]]
    if kind == 'dups':
        return pd.date_range('2021-03-01', periods=(n + 1) // 2, freq='1h').repeat(2)[:n]
    if kind == 'tz':
        return pd.date_range('2021-03-27 20:00', periods=n, freq='1h', tz='Europe/Zurich')
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'reversed':
        return pd.date_range('2021-03-01', periods=n, freq='1h')[::-1]
    if kind == 'twohours':
        return pd.date_range('2021-03-01 03:00', periods=n, freq='12h')
    if kind == 'ints-unsorted':
        return pd.Index([(7 * i + 3) % 29 for i in range(n)])
    raise ValueError(kind)


def frames(kind, n):
    ix = index(kind, n)
    x = pd.DataFrame({'row': np.arange(n, dtype=float), 'g': np.arange(n) % 3}, index=ix)
    y = pd.DataFrame({'t0': np.arange(n) * 10.0, 't1': np.arange(n) * 100.0}, index=ix)
    return x, y


def stub(**kw):
    from checks.c10 import stubclass
    return stubclass()(q_vect=np.array([0.5]), **kw)


def pick(ctx, f, x, y, m, n, key, info):
    np.random.seed(3)
    g0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    xs, ys = fm.calibration_rows(f, x, y)
    ctx.step()
    g1 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    ctx.ok(g0 == g1, key + ':global-random', '%s: the global random state was used' % info)
    if not ctx.ok(len(xs) == len(ys) == min(m, n), key + ':size', '%s: %d/%d rows selected of %d, limit %d' % (info, len(xs), len(ys), n, m)):
        return None
    pos = [int(v) for v in xs['row'].values]
    ctx.ok(len(set(pos)) == len(pos), key + ':distinct', '%s: rows repeated %s' % (info, pos))
    ctx.ok([int(v / 10) for v in ys['t0'].values] == pos and [int(v / 100) for v in ys['t1']] == pos and xs.index.equals(ys.index), key + ':paired', '%s: x rows %s, y rows %s' % (info, pos, ys['t0'].values))
    ctx.ok(list(xs.index) == [x.index[p] for p in pos] and list(xs['g']) == [x['g'].iloc[p] for p in pos], key + ':labels', '%s: a row lost its label' % info)
    if m >= n:
        ctx.ok(pos == list(range(n)), key + ':all', '%s: a limit not smaller than the data must change nothing, got %s' % (info, pos))
    else:
        ctx.ok(all(x.index[p] <= x.index[r] for p, r in zip(pos, pos[1:])), key + ':order', '%s: rows not ordered by label: %s' % (info, pos))
    return pos


def select(ctx, case):
    n = case['n']
    x, y = frames(case['ix'], n)
    x0, y0 = x.copy(), y.copy()
    for m in range(1, n + 2):
        drawn = set()
        for seed in range(case['seeds']):
            info = '%s n=%d m=%d seed=%d' % (case['ix'], n, m, seed)
            a = pick(ctx, stub(max_scengen_rows=m, scengen_random_state=seed), x, y, m, n, 'select', info)
            ctx.state(case['ix'], n, m, seed)
            if a is None:
                continue
            drawn |= set(a)
            f = stub(max_scengen_rows=np.int64(m), scengen_random_state=seed)
            np.random.rand(seed)
            b = pick(ctx, f, x, y, m, n, 'select', info)
            c = pick(ctx, f, x, y, m, n, 'select', info)
            ctx.ok(a == b == c, 'select:deterministic', '%s: %s, %s, %s' % (info, a, b, c))
            g = stub(max_scengen_rows=m)
            g.random_state = seed
            d = pick(ctx, g, x, y, m, n, 'select', info)
            ctx.ok(a == d, 'select:random_state', '%s: random_state fallback drew %s instead of %s' % (info, d, a))
            g.random_state = np.int64(seed)
            d = pick(ctx, g, x, y, m, n, 'select', info)
            ctx.ok(a == d, 'select:random_state-int64', '%s: random_state (numpy integer) drew %s instead of %s' % (info, d, a))
            if seed == 0:
                e = pick(ctx, stub(max_scengen_rows=m), x, y, m, n, 'select', info)
                ctx.ok(a == e, 'select:default-seed', '%s: default seed is not 0' % info)
                g = stub(max_scengen_rows=m, scengen_random_state=0)
                g.random_state = 5
                ctx.ok(a == pick(ctx, g, x, y, m, n, 'select', info), 'select:seed-precedence', '%s: explicit seed 0 must win over random_state' % info)
        ctx.outcome(case['ix'], n, m, tuple(sorted(drawn)))
        if 1 < m < n <= 9 and case['seeds'] >= 12 and m * 3 >= n:
            if case['seeds'] >= 60 or m * 2 >= n:
                ctx.ok(len(drawn) > m or n == m, 'select:spread', '%s n=%d m=%d: every seed selects the same rows' % (case['ix'], n, m))
    # no limit
    xs, ys = fm.calibration_rows(stub(), x, y)
    ctx.ok(xs.equals(x) and ys.equals(y), 'select:none')
    # rows of x and y that do not belong together are refused when a selection is needed
    if n >= 2:
        y2 = y.copy()
        y2.index = y.index[::-1] if not y.index[::-1].equals(y.index) else [object()] * n
        if not y2.index.equals(x.index):
            try:
                fm.calibration_rows(stub(max_scengen_rows=1), x, y2)
                ctx.fail('select:mismatch', 'x and y with different labels were accepted')
            except ValueError:
                pass
    ctx.ok(x.equals(x0) and y.equals(y0), 'select:input')
    ctx.trace()


def share(ctx, case):
    """proportional representation of the hours, over 400 seeds"""
    a, b, m = case['a'], case['b'], case['m']
    ix = [pd.Timestamp('2021-03-01 04:00') + pd.Timedelta(days=i) for i in range(a)] + [pd.Timestamp('2021-03-01 15:00') + pd.Timedelta(days=i) for i in range(b)]
    n = a + b
    x = pd.DataFrame({'row': np.arange(n, dtype=float), 'g': np.arange(n) % 3}, index=pd.DatetimeIndex(ix))
    y = pd.DataFrame({'t0': np.arange(n) * 10.0, 't1': np.arange(n) * 100.0}, index=x.index)
    tot, N, freq = 0, 400, np.zeros(n)
    for seed in range(N):
        p = pick(ctx, stub(max_scengen_rows=m, scengen_random_state=seed), x, y, m, n, 'share', '%s seed=%d' % (case, seed))
        if p is None:
            return
        tot += sum(1 for v in p if v < a)
        freq[p] += 1
    ctx.state('share', a, b, m)
    exp = m * a / n
    # capping at the rows available moves the mean a little when the draw is nearly everything
    ctx.ok(abs(tot / N - exp) <= 0.35 + 0.35 * (m / n), 'share:proportional', '%s: mean rows of the first hour %.2f, proportional %.2f' % (case, tot / N, exp))
    for grp in (freq[:a], freq[a:]):
        ctx.ok(grp.max() - grp.min() <= 6 * np.sqrt(N) * 0.75, 'share:uniform', '%s: rows of one hour are selected %s times' % (case, grp))
    ctx.trace()


def limits(ctx, case):
    from pyforecaster.forecaster import LinearForecaster, LGBForecaster, ScenarioGenerator
    from pyforecaster.forecasting_models.randomforests import QRF
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
    bad = [0, -1, -100, 1.5, '3', [3], np.float64(4.0), np.int64(0), np.int32(-2)]
    good = [None, 1, 10 ** 9, np.int64(7), np.int32(3)]
    for cls in (ScenarioGenerator, LinearForecaster, LGBForecaster, QRF, LGBMHybrid):
        v = case['v']
        if v < len(bad):
            try:
                cls(max_scengen_rows=bad[v])
                ctx.fail('limits:accepted', '%s accepts max_scengen_rows=%r' % (cls.__name__, bad[v]))
            except (TypeError, ValueError):
                pass
            ctx.state('limits', cls.__name__, v)
        else:
            for g in good:
                f = cls(max_scengen_rows=g)
                ctx.ok(f.max_scengen_rows == g, 'limits:value', '%s: limit %r stored as %r' % (cls.__name__, g, f.max_scengen_rows))
                ctx.state('limits', cls.__name__, repr(g))
        ctx.step()
    ctx.trace()


def effect(ctx, case):
    """the cap reaches the calibration only: training and point forecasts are those without cap, calibration is that of the selected rows"""
    fc, cap = case['fc'], case['cap']
    q = np.array([0.2, 0.7])
    x, y = fm.data(96, 2, seed=4)
    a = fm.fitted(fc, x, y, q_vect=q, val_ratio=0.5, n_scen_fit=4)
    b = fm.fitted(fc, x, y, q_vect=q, val_ratio=0.5, n_scen_fit=4, max_scengen_rows=cap, scengen_random_state=3)
    ctx.step(2)
    ctx.state('effect', fc, cap)
    qx, _ = fm.data(30, 1, seed=9)
    ctx.eq(b.predict(qx.copy()).values, a.predict(qx.copy()).values, 'effect:%s:point' % fc, 'a limit changed the point forecast')
    xv, yv = x.iloc[48:], y.iloc[48:]
    xs, ys = fm.calibration_rows(b, xv, yv)
    ctx.ok(len(xs) == min(cap, 48), 'effect:%s:size' % fc)
    from checks.c10 import oracle
    exp = oracle(ys.values - a.predict(xs.copy()).values, list(xs.index.hour), True, q, None)
    for h in range(24):
        ctx.eq(b.err_distr[h], exp[h], 'effect:%s:calibration' % fc, 'hour %d' % h)
    hrs = set(int(h) for h in b.scengen.copula.pars)
    ctx.ok(hrs == set(int(h) for h in xs.index.hour), 'effect:%s:copula-hours' % fc, 'copula fitted for hours %s' % hrs)
    for h in hrs:
        e = (ys.values - a.predict(xs.copy()).values)[xs.index.hour == h]
        if len(e) > 2:
            ctx.eq(b.scengen.copula.pars[h], np.corrcoef(e.T) + np.eye(2) * 1e-6, 'effect:%s:copula' % fc, 'hour %d' % h, tol=1e-6)
    ctx.trace()
