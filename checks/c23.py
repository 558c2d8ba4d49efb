"""C23: memory reduction over all boundary values of every type, and split/map/merge under every completion order."""
import itertools
import math
import numpy as np
import pandas as pd
from mc import fakeray
from mc.util import frame_eq

PID = 'C23'
PREFORK = True
BOUNDS = dict(quick='all ordered pairs of 21 integer and 15 float boundary values per dtype; all pairs of 11 column types x 4 index kinds x 3 execution modes; '
                    'split/map: rows 1..6, columns 1..5, pieces 1..3, both axes, 4 functions, ray-like and pool-like, all completion orders; lists of up to 3 pieces of 1..3 rows or columns each, with functions of varying result sizes; one real process pool run',
              thorough='triples of boundary values; triples of column types; rows 0..9, columns 1..7, pieces 1..4, all completion orders')
ASSUMPTIONS = ['ray and the process pool are replaced by an in-process scheduler with pickling (real pool exercised once)',
               'array mode (pool without ray) is explored for frames whose columns share one kind of dtype, since a table is converted to one array there']
IV = sorted({0, 1, -1, 7} | {s * (2 ** b) + d for b in (7, 15, 31) for s, d in ((1, -2), (1, -1), (1, 0), (-1, 0), (-1, 1), (-1, -1))} | {2 ** 63 - 1, -2 ** 63, 2 ** 63 - 2, 2 ** 53 + 1})
FV = [0.0, -0.0, 1.5, -2.25, 1 / 3, 16777217.0, 1e-30, 1e-46, 3.4e38, 3.5e38, -3.5e38, 1e300, float('inf'), float('-inf'), float('nan')]


def setup():
    import pyforecaster.big_data_utils  # noqa


COLS = ['int64', 'int32', 'int8', 'uint8', 'bool', 'float64', 'float32', 'str', 'mixed', 'cat', 'date']


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for dt in ('int64', 'int32', 'int16', 'int8', 'uint64', 'uint8'):
        for a in IV:
            res.append(dict(kind='ints', dtype=dt, a=a, k=2 if q else 3))
    for dt in ('float64', 'float32'):
        for a in range(len(FV)):
            res.append(dict(kind='floats', dtype=dt, a=a, k=2 if q else 3))
    for cs in itertools.product(COLS, repeat=2 if q else 3):
        res.append(dict(kind='frames', cols=list(cs)))
    for n in range(0, 10 if q else 14):
        res.append(dict(kind='split', n=n))
    R, C, S = (range(1, 7), range(1, 6), range(1, 4)) if q else (range(0, 10), range(1, 8), range(1, 5))
    for n, m, s in itertools.product(R, C, S):
        res.append(dict(kind='maps', n=n, m=m, s=s))
    for k in (1, 2, 3):
        for sizes in itertools.product((1, 2, 3), repeat=k):
            for axis in (0, 1):
                res.append(dict(kind='ragged', sizes=list(sizes), axis=axis))
    res.append(dict(kind='realpool'))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def close(a, b):
    """float within single precision"""
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * abs(a) + 1e-44


def judge(ctx, before, after, key, info):
    if not ctx.ok(isinstance(after, pd.DataFrame) and list(after.columns) == list(before.columns) and after.index.equals(before.index)
                  and after.shape == before.shape and str(getattr(after.index, 'tz', None)) == str(getattr(before.index, 'tz', None)), key + ':labels',
                  '%s: labels changed to %s / %s' % (info, getattr(after, 'columns', type(after)), getattr(after, 'index', ''))):
        return
    for j, c in enumerate(before.columns):
        o, r = before.iloc[:, j], after.iloc[:, j]
        kind = o.dtype.kind if isinstance(o.dtype, np.dtype) else 'C'
        for u, v in zip(o, r):
            if kind == 'f':
                good = close(float(u), float(v))
            elif kind in 'iu':
                good = int(u) == int(v)
            elif kind == 'b':
                good = bool(u) == bool(v)
            else:
                good = u is v or u == v or (u != u and v != v)
            if not good:
                ctx.fail('%s:%s' % (key, dict(f='float', i='int', u='uint', b='bool').get(kind, 'other')), '%s: column %s (%s): %r became %r (%s)' % (info, c, o.dtype, u, v, r.dtype))
                break


def ints(ctx, case):
    from pyforecaster.big_data_utils import reduce_mem_usage, reduce_mem_usage_series
    ii = np.iinfo(case['dtype'])
    if not ii.min <= case['a'] <= ii.max:
        return
    for rest in itertools.product([v for v in IV if ii.min <= v <= ii.max], repeat=case['k'] - 1):
        vals = [case['a']] + list(rest)
        df = pd.DataFrame({'v': np.array(vals, dtype=case['dtype'])})
        s = reduce_mem_usage_series(df['v'].copy())
        ctx.step()
        ctx.state(case['dtype'], tuple(vals))
        judge(ctx, df, pd.DataFrame({'v': s}), 'series', str(vals))
        ctx.outcome(str(s.dtype))
        if case['k'] == 2 and vals[1] in (0, -1, 127):
            out = reduce_mem_usage(df.copy(), parallel=False)
            ctx.step()
            judge(ctx, df, out, 'serial', str(vals))
    ctx.trace()


def floats(ctx, case):
    from pyforecaster.big_data_utils import reduce_mem_usage_series
    for rest in itertools.product(range(len(FV)), repeat=case['k'] - 1):
        vals = [FV[i] for i in [case['a']] + list(rest)]
        with np.errstate(all='ignore'):
            df = pd.DataFrame({'v': np.array(vals).astype(case['dtype'])})
        s = reduce_mem_usage_series(df['v'].copy())
        ctx.step()
        ctx.state(case['dtype'], tuple(map(repr, vals)))
        ctx.outcome(str(s.dtype))
        judge(ctx, df, pd.DataFrame({'v': s}), 'series', str(vals))
    ctx.trace()
    ctx.sample(values=[repr(v) for v in vals], dtype=str(s.dtype))


def column(kind, n, k):
    base = np.arange(n) * 37 + 300 * k + 1
    if kind in ('int64', 'int32', 'int8', 'uint8'):
        return (base * (1000003 if kind == 'int64' else 1) % np.iinfo(kind).max).astype(kind)
    if kind == 'bool':
        return base % 2 == 0
    if kind.startswith('float'):
        v = (base / 3).astype(kind)
        v[n // 2] = np.nan
        return v
    if kind == 'str':
        return ['x%d' % b for b in base]
    if kind == 'mixed':
        return [None if i == 1 else ('a' if i % 2 else i) for i in range(n)]
    if kind == 'cat':
        return pd.Categorical(['u', 'v', 'u', 'w', 'u', 'v'][:n] if n <= 6 else ['u', 'v'] * n)
    return pd.date_range('2020-01-01', periods=n, freq='1D')


def frames(ctx, case):
    import pyforecaster.big_data_utils as B
    n = 5
    idxs = [pd.RangeIndex(n), pd.date_range('2021-10-31', periods=n, freq='1h', tz='Europe/Zurich'), pd.Index(list('bacde')), pd.Index([1, 1, 0, 0, 5])]
    for ii, ix in enumerate(idxs):
        df = pd.DataFrame({('z%d' % (9 - k)): column(c, n, k) for k, c in enumerate(case['cols'])})
        df.index = ix
        one_kind = len({c if not c.startswith(('int', 'float')) else c[:3] for c in case['cols']}) == 1 and case['cols'][0] not in ('cat', 'date')
        for mode in ('serial', 'ray') + (('pool',) if one_kind else ()):
            d = df.copy()
            if mode == 'serial':
                if ii == 3:
                    d = df.copy()
                out = B.reduce_mem_usage(d, parallel=False)
            else:
                for order in ([0, 1], [1, 0]):
                    with fakeray.owned(B, order, 1 if mode == 'ray' else 1):
                        out = B.reduce_mem_usage(df.copy(), parallel=True, use_ray=mode == 'ray')
                    judge(ctx, df, out, 'parallel-' + mode, '%s index %d order %s' % (case['cols'], ii, order))
                    ctx.step()
                continue
            ctx.step()
            judge(ctx, df, out, mode, '%s index %d' % (case['cols'], ii))
        ctx.state(tuple(case['cols']), ii)
        ctx.trace()


def split(ctx, case):
    from pyforecaster.big_data_utils import array_split
    n = case['n']
    for m, k, axis, isdf in itertools.product((1, 2, 3), range(1, 7), (0, 1), (True, False)):
        shape = (n, m) if axis == 0 else (m, n)
        a = np.arange(n * m).reshape(shape) * 1.0
        o = pd.DataFrame(a, index=['r%d' % i for i in range(shape[0])], columns=['c%d' % (9 - i) for i in range(shape[1])]) if isdf else a
        if isdf and n:
            o = o.astype({o.columns[0]: 'float32'})
        ps = array_split(o, k, axis=axis)
        ctx.step()
        ctx.state('split', n, m, k, axis, isdf)
        info = 'shape %s into %d along %d' % (shape, k, axis)
        ctx.ok(len(ps) == k, 'split-count', info)
        back = pd.concat(ps, axis=axis) if isdf else np.concatenate(ps, axis=axis)
        ctx.ok(frame_eq(back, o) if isdf else np.array_equal(back, o), 'split-lossless', info + ' gives %s' % [p.shape for p in ps])
        if isdf and n and axis == 1:
            ctx.ok(all(p[c].dtype == o[c].dtype for p in ps for c in p.columns), 'split-dtype', info)
        sz = [p.shape[axis] for p in ps]
        ctx.ok(max(sz) - min(sz) <= 1, 'split-balanced', info + ' sizes %s' % sz)
    ctx.trace()


def f_any(x):
    return x * 2 + 1


def f_df(x):
    r = x.copy()
    r.iloc[:, 0] = r.iloc[:, 0] + 0.5
    return r.rename(columns=str)


def f_tuple(x):
    return x * 3, x.iloc[:, :1] - 1


def f_sum(x):
    return np.asarray(x).sum(axis=1, keepdims=True)


def maps(ctx, case):
    import pyforecaster.big_data_utils as B
    n, m, s = case['n'], case['m'], case['s']
    idx = pd.date_range('2021-10-30 22:00', periods=n, freq='1h', tz='Europe/Zurich')
    df = pd.DataFrame(np.arange(n * m).reshape(n, m) * 1.5, index=idx, columns=['c%d' % (9 - j) for j in range(m)])
    keep = df.copy()
    for axis in (0, 1):
        pieces = B.array_split(df, s, axis=axis)
        nonempty = all(p.shape[0] and p.shape[1] for p in pieces)
        for arg in ('frame', 'list'):
            if arg == 'list' and not nonempty or (m > s and not nonempty):
                continue
            cut = s if (arg == 'list' or m > s) else 1
            for order in itertools.permutations(range(cut)):
                for fn, mode in ((f_any, 'ray'), (f_df, 'ray'), (f_tuple, 'ray'), (f_any, 'pool'), (f_sum, 'pool')):
                    if fn is f_df and axis == 1 or fn is f_sum and (axis == 1):
                        continue
                    info = '%dx%d pieces %d axis %d %s %s %s order %s' % (n, m, s, axis, arg, fn.__name__, mode, order)
                    with fakeray.owned(B, order, 4) as fr:
                        out = B.fdf_parallel(fn, df if arg == 'frame' else pieces, n_splits=s, axis=axis, use_ray=mode == 'ray')
                    ctx.step()
                    ctx.state(n, m, s, axis, arg, fn.__name__, mode, order)
                    ctx.ok(not fr.up, 'ray-left-running', info)
                    if fn is f_tuple:
                        ctx.eq(out[0], df * 3, 'map-tuple', info)
                        firsts = df.iloc[:, :1] - 1 if axis == 0 else pd.concat([p.iloc[:, :1] - 1 for p in (pieces if cut > 1 else [df])], axis=1)
                        ctx.eq(out[1], firsts, 'map-tuple-second', info)
                    elif fn is f_sum:
                        want = df.values.sum(axis=1, keepdims=True)
                        ctx.eq(np.asarray(out), want, 'map-array', info)
                    else:
                        want = f_any(df) if fn is f_any else f_df(df)
                        ok = isinstance(out, pd.DataFrame) and str(out.index.dtype) == str(want.index.dtype)
                        ctx.ok(ok, 'map-labels', info + ' index dtype %s' % getattr(getattr(out, 'index', None), 'dtype', type(out)))
                        ctx.eq(out, want, 'map-%s' % mode, info)
            if nonempty and arg == 'list':
                with fakeray.owned(B, range(s), 4):
                    out = B.fdf_parallel(f_any, pieces, axis=axis, recast=False)
                ctx.step()
                ctx.ok(isinstance(out, list) and len(out) == s and all(frame_eq(o, f_any(p)) for o, p in zip(out, pieces)), 'map-norecast', '%dx%d pieces %d' % (n, m, s))
    ctx.ok(frame_eq(df, keep), 'map-input-changed', str(case))
    ctx.trace()
    ctx.sample(shape=[n, m], pieces=s)


def f_keep(x):
    """keeps some rows only, possibly none"""
    return x[x.iloc[:, 0] % 2 == 0]


def f_both(x):
    return f_keep(x), x * 3


def ragged(ctx, case):
    """lists of pieces of any sizes, functions whose results differ in size"""
    import pyforecaster.big_data_utils as B
    sizes, axis = case['sizes'], case['axis']
    cuts = np.cumsum([0] + sizes)
    n = int(cuts[-1])
    for pat in range(3):
        vals = np.arange(n * 2.0).reshape(n, 2)
        vals[:, 0] = [(i * (pat + 1) // 2 + pat) for i in range(n)]
        df = pd.DataFrame(vals, index=['r%d' % i for i in range(n)], columns=['b', 'a'])
        whole = df if axis == 0 else df.T
        pieces = [whole.iloc[a:b] if axis == 0 else whole.iloc[:, a:b] for a, b in zip(cuts, cuts[1:])]
        for order in itertools.permutations(range(len(pieces))):
            for fn in (f_any, f_keep, f_both, f_tuple) if axis == 0 else (f_any,):
                info = 'pieces of %s axis %d %s pattern %d order %s' % (sizes, axis, fn.__name__, pat, order)
                with fakeray.owned(B, order, 4) as fr:
                    out = B.fdf_parallel(fn, [p.copy() for p in pieces], axis=axis)
                ctx.step()
                ctx.state(str(sizes), axis, pat, fn.__name__, order)
                want = fn(whole)
                for k, (o, w) in enumerate(zip(out, want) if isinstance(want, tuple) else [(out, want)]):
                    ctx.ok(isinstance(o, pd.DataFrame) and list(o.index) == list(w.index) and list(o.columns) == list(w.columns), 'ragged:labels', '%s result %d: rows %s' % (info, k, list(getattr(o, 'index', []))))
                    ctx.eq(np.asarray(o, float), w.values, 'ragged:values', '%s result %d' % (info, k), tol=0)
    ctx.trace()


def realpool(ctx, case):
    import pyforecaster.big_data_utils as B
    df = pd.DataFrame(np.arange(60).reshape(10, 6) * 1.5, columns=list('fbacde'))
    for axis in (0, 1):
        out = B.fdf_parallel(f_any, df, n_splits=3, axis=axis, use_ray=False)
        ctx.step()
        ctx.eq(out, f_any(df), 'real-pool', 'axis %d' % axis)
    out = B.mapper(f_any, [np.arange(3), np.arange(4), np.arange(2)])
    ctx.ok(len(out) == 3 and all(np.array_equal(o, f_any(np.arange(k))) for o, k in zip(out, (3, 4, 2))), 'real-pool-mapper', str(out))
    ctx.state('realpool')
    ctx.trace()
