"""Shared small forecasting problems and a factory of every (fast) forecaster of the library."""
import numpy as np
import pandas as pd


def data(n, steps, freq='1h', seed=0, start='2021-03-01', nx=2, tz=None, step_shift=0.0, hours=None):
    """n rows, deterministic and generic: no two residuals equal, hour-dependent errors"""
    rng = np.random.default_rng(1000 + seed)
    if hours is None:
        idx = pd.date_range(start, periods=n, freq=freq, tz=tz)
    else:                                    # row i falls on hour hours[i % len]
        day = pd.Timestamp(start, tz=tz)
        idx, prev, d = [], -1, 0
        for i in range(n):
            h = hours[i % len(hours)]
            if h <= prev:
                d += 1
            prev = h
            idx.append(day + pd.Timedelta(days=d, hours=int(h)))
        idx = pd.DatetimeIndex(idx)
    x = pd.DataFrame(rng.normal(size=(n, nx)), index=idx, columns=['f%d' % j for j in range(nx)])
    coef = rng.normal(size=(nx, steps))
    h = np.asarray(idx.hour, dtype=float).reshape(-1, 1)
    y = x.values @ coef + 0.3 * rng.normal(size=(n, steps)) * (1 + h / 6) + h * 0.1 * (1 + np.arange(steps)) + step_shift
    y = pd.DataFrame(y, index=idx, columns=['y%d' % j for j in range(steps)])
    return x, y


def lin_quantile(values, q):
    """empirical quantile, linear interpolation between order statistics (written from the definition)"""
    s = sorted(float(v) for v in values)
    pos = q * (len(s) - 1)
    lo = int(np.floor(pos))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (pos - lo) * (s[hi] - s[lo])


class Quiet:
    """tqdm and prints of the code under test are silenced by the runtime; nothing to do"""


def make(kind, **kw):
    from pyforecaster.forecaster import LinearForecaster, LGBForecaster
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid, LGBEnergyAware
    from pyforecaster.forecasting_models.randomforests import QRF
    if kind == 'lin':
        return LinearForecaster(**kw)
    if kind == 'ridge':
        return LinearForecaster(kind='ridge', **kw)
    lgb = dict(n_jobs=1, n_estimators=4, num_leaves=4, min_child_samples=2, max_depth=3)
    if kind == 'lgb':
        return LGBForecaster(**lgb, n_jobs_predict=1, **kw)
    if kind.startswith('hybrid'):
        return LGBMHybrid(**lgb, n_single=int(kind[6:]), **kw)
    if kind == 'energy':
        return LGBEnergyAware(**lgb, **kw)
    if kind.startswith('qrf'):
        return QRF(n_estimators=5, parallel=False, n_jobs=1, random_state=0, n_single=int(kind[3:]), **kw)
    if kind in ('rff', 'addrff', 'rffw', 'addrffw'):
        from pyforecaster.forecasting_models.random_fourier_features import RFFRegression, AdditiveRFFRegression
        if kind.endswith('w'):                                   # given random features (two input columns)
            r = np.random.default_rng(8)
            kw.update(W=r.normal(size=(2, 4)), b=r.uniform(0, 6, size=4))
        if kind.startswith('rff'):
            return RFFRegression(dim_kernel=4, std_kernel=0.3, **kw)
        return AdditiveRFFRegression(2, dim_kernel=4, std_kernel=0.3, **kw)
    raise ValueError(kind)


def fitted(kind, x, y, seed=5, **kw):
    if kind == 'energy':
        kw['n_single'] = y.shape[1]
    np.random.seed(seed)
    return make(kind, **kw).fit(x.copy(), y.copy())


def calibration_rows(f, x, y):
    """the rows kept for calibration; observed through fit when the selection is not a method of its own"""
    sel = getattr(f, '_maybe_subsample_for_scengen', None)
    if sel is not None:
        return sel(x, y)
    import copy
    g = copy.deepcopy(f)
    seen = []

    class Rec:
        def fit(self, errs, x, **kw):
            pass
    g.scengen = Rec()
    orig = g.predict
    g.predict = lambda x, **kw: (seen.append(x), orig(x, **kw))[1]
    from pyforecaster.forecaster import ScenarioGenerator
    try:
        ScenarioGenerator.fit(g, x, y)
    except Exception:
        if not seen:
            raise
    xs = seen[0]
    # labels may repeat: rows are recovered by the (unique) feature values
    pos = [[i for i in range(len(x)) if x.index[i] == l and np.array_equal(x.values[i], v)][0] for l, v in zip(xs.index, xs.values)]
    return xs, y.iloc[pos]
