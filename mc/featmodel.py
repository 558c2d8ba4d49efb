"""Reference model of feature engineering: plain lists, one loop per value.

A transform configuration is a dict
  names, functions (list of names or None), agg (None | str like '2h' | int steps), lags (None | int | list),
  rel (bool), bins (None | list), nested (bool)
The model yields columns: dict(col, src, fun, lag, lo, hi, vals) where [lo, hi] are the offsets (in rows back from t,
hi older) of the raw samples the value at t is made of.
"""
import math
import numpy as np
import pandas as pd

NAN = float('nan')


def spread(x):
    return float(np.max(x) - np.min(x))


def first_minus_twice_last(x):
    x = np.asarray(x)
    return float(x[0] - 2 * x[-1])


CALLABLES = {'spread': spread, 'first_minus_twice_last': first_minus_twice_last}


def stat(fun, w):
    if fun == 'mean':
        return math.fsum(w) / len(w)
    if fun == 'sum':
        return math.fsum(w)
    if fun == 'min':
        return min(w)
    if fun == 'max':
        return max(w)
    if fun == 'median':
        s = sorted(w)
        k = len(s)
        return s[k // 2] if k % 2 else (s[k // 2 - 1] + s[k // 2]) / 2
    if fun == 'std':
        if len(w) < 2:
            return NAN
        m = math.fsum(w) / len(w)
        return math.sqrt(math.fsum((v - m) ** 2 for v in w) / (len(w) - 1))
    if fun == 'spread':
        return max(w) - min(w)
    if fun == 'first_minus_twice_last':
        return w[0] - 2 * w[-1]
    raise KeyError(fun)


def real_functions(funs):
    return None if funs is None else [CALLABLES.get(f, f) for f in funs]


def hr(td):
    """seconds -> the documented compact duration"""
    s = int(td.total_seconds())
    d, s = divmod(s, 86400)
    h, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    return ''.join('%d%s' % (v, u) for v, u in ((d, 'd'), (h, 'h'), (m, 'm'), (s, 's')) if v > 0)


def norm_freq(f):
    return f.replace('H', 'h').replace('T', 'min')


def window_value(vals, t, lo, hi, fun):
    """statistic over rows t-hi .. t-lo (all must exist and be present)"""
    a, b = t - hi, t - lo
    if a < 0 or b >= len(vals):
        return NAN
    w = vals[a:b + 1]
    if any(v != v for v in w):
        return NAN
    return w[0] if fun is None else stat(fun, w)


def lag_suffix(l):
    return '_lag_%03d' % l if l >= 0 else '_lag_-%03d' % (-l)


def columns(cfg, data, dt):
    """data: {name: list of floats}; dt: pd.Timedelta"""
    res = []
    lags = cfg.get('lags')
    if lags is not None:
        lags = list(np.atleast_1d(lags))
    funs = cfg.get('functions')
    bins = cfg.get('bins')
    for name in cfg['names']:
        v = data[name]
        base = []   # (column stem, function, lo, hi)
        if bins is None:
            agg = cfg.get('agg')
            steps = 1 if agg is None else (agg if isinstance(agg, int) else math.ceil(pd.Timedelta(norm_freq(agg)) / dt))
            mult = steps if cfg.get('rel') else 1
            if funs:
                label = norm_freq(agg) if isinstance(agg, str) else hr(dt * steps)
                base = [('%s_%s_%s' % (name, label, f), f, 0, steps - 1) for f in funs]
            else:
                base = [(name, None, 0, steps - 1)]
        else:
            B = sorted(bins, reverse=True)
            mult = (max(B) - min(B)) if cfg.get('rel') else 1
            pairs = [(B[i], B[i + 1]) for i in range(len(B) - 1)]
            order = [(f, p) for p in pairs for f in funs] if cfg.get('nested', True) else [(f, p) for f in funs for p in pairs]
            base = [('%s_%s_%d_%d' % (name, f, p[0], p[1]), f, p[1], p[0] - 1) for f, p in order]
        for l in (lags if lags is not None else [None]):
            off = 0 if l is None else int(l) * mult
            for stem, f, lo, hi in base:
                # without a function the value is the single lagged sample
                vlo, vhi = (lo + off, hi + off) if f is not None else (off, off)
                # bins are first aligned to their own row t-l and then shifted by l: if t-l falls outside the frame
                # the value may also be missing (maynan)
                maynan = [bins is not None and not 0 <= t - off < len(v) for t in range(len(v))]
                if bins is not None and not cfg.get('nested', True):   # flat bins need the whole span of the bins
                    maynan = [m or window_value(v, t, min(bins) + off, max(bins) - 1 + off, 'sum') != window_value(v, t, min(bins) + off, max(bins) - 1 + off, 'sum')
                              for t, m in enumerate(maynan)]
                res.append(dict(maynan=maynan, col=stem if l is None else stem + lag_suffix(int(l)), src=name, fun=f,
                                lag=None if l is None else int(l), lo=vlo, hi=vhi, mlo=lo + off, mhi=hi + off,
                                vals=[window_value(v, t, vlo, vhi, f) for t in range(len(v))]))
    return res


def expected(exp, index, got):
    """expected frame; where a value may also be missing, follow what was observed (value or missing)"""
    want = pd.DataFrame({e['col']: e['vals'] for e in exp}, index=index)
    for e in exp:
        if any(e['maynan']) and e['col'] in got.columns and len(got) == len(index):
            g = got[e['col']].values
            want[e['col']] = [NAN if m and g[t] != g[t] else v for t, (m, v) in enumerate(zip(e['maynan'], e['vals']))]
    return want


def make_frame(n, names, dt='1h', start='2021-03-05 07:00', seed=0, nan_at=(), tz=None):
    """all-distinct irregular values; nan_at: list of [row, col]"""
    rng = np.random.RandomState(1000 + seed)
    idx = pd.date_range(start, periods=n, freq=dt, tz=tz)
    pool = rng.permutation(np.arange(3, 3 + 4 * n * len(names)))[:n * len(names)].astype(float)
    m = pool.reshape(n, len(names)) * 0.5 + 0.25 * (pool.reshape(n, len(names)) % 3)
    df = pd.DataFrame(m, index=idx, columns=names)
    for r, c in nan_at:
        df.iloc[r, c] = np.nan
    return df


def transformer(cfg, dt=None):
    from pyforecaster.formatter import Transformer
    kw = dict(functions=real_functions(cfg.get('functions')), agg_freq=cfg.get('agg'), lags=cfg.get('lags'),
              relative_lags=bool(cfg.get('rel')), dt=dt)
    if cfg.get('bins') is not None:
        kw.update(agg_bins=list(cfg['bins']), nested=bool(cfg.get('nested', True)))
    return Transformer(list(cfg['names']), **kw)


def config_space(tier, names=('a', 'b')):
    """simplest first"""
    names = list(names)
    cfgs = []
    lagsets = [[0], [1], [2], [-1], [0, 1, 3], [-2, -1], [2, 0, -1], None]
    funsets = [None, ['mean'], ['min', 'max'], ['std', 'sum', 'mean'], ['first_minus_twice_last', 'median']]
    aggs = [None, '2h', 3, '3H', '90min']
    if tier == 'thorough':
        lagsets += [[3], [-3], [1, 1 + 1, 4], [4, 2], 1, -2, [0, -1, -2, -3], [5]]
        funsets += [['sum'], ['spread'], ['max', 'mean', 'min', 'std'], ['median']]
        aggs += [1, 2, '1h', '120min', 4, '180min', '40min', '130min']
    for ns in ([names[:1], names] if len(names) > 1 else [names]):
        for rel in (False, True):
            for fs in funsets:
                for ag in aggs:
                    for lg in lagsets:
                        if fs is None and lg is None:
                            continue
                        if fs is None and ag is not None and not rel:
                            continue   # an aggregation length without statistic has no effect on values
                        if ag is None and rel:
                            continue
                        cfgs.append(dict(names=ns, functions=fs, agg=ag, lags=lg, rel=rel))
    binsets = [[0, 2], [0, 1, 3], [1, 3, 4], [-2, 0], [-3, -1, 0, 1]]
    binlags = [None, [0], [1, 0], [-1, 2]]
    binfuns = [['mean'], ['min', 'max'], ['sum', 'max', 'median']]
    if tier == 'thorough':
        binsets += [[4, 2, 1, 0], [0, 5], [-4, -3, -1], [2, 3, 4, 5]]
        binlags += [[2], [-1], [0, 1, 2]]
        binfuns += [['median'], ['mean', 'sum']]
    for ns in ([names[:1], names] if len(names) > 1 else [names]):
        for nested in (True, False):
            for fs in binfuns:
                for b in binsets:
                    for lg in binlags:
                        cfgs.append(dict(names=ns, functions=fs, bins=b, lags=lg, nested=nested, rel=False))
                        if lg is not None and fs == binfuns[0]:
                            cfgs.append(dict(names=ns, functions=fs, bins=b, lags=lg, nested=nested, rel=True))
    return cfgs
