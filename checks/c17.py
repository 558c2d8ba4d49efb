"""C17: every score against element-by-element definitions for all small value assignments, shapes and groupings."""
import itertools
import math
from functools import partial
import numpy as np
import pandas as pd
from mc.util import frame_eq

PID = 'C17'
PREFORK = True
BOUNDS = dict(quick='all value assignments over {0,1}x{0,1,-2} for 1..2 rows x 1..2 targets; fixed distinct data for rows 1..4 x targets 1..3 x levels 1..3 under every row and '
                    'column grouping; both axis orders of quantile arrays, tables; every mask of 2x2 and 3x1; scorers and summaries',
              thorough='all assignments over {0,1,3}x{0,1,-2}; rows 1..5 x targets 1..4 x levels 1..4 under every grouping; every mask of 3x2')
ASSUMPTIONS = ['forecast and target tables list the same rows in the same order', 'a quantile array whose step and level axes have equal length is read in the preferred '
               'layout (rows, steps, levels)', 'grouping by a vector as long as the number of rows groups rows, otherwise columns']


def setup():
    import pyforecaster.metrics  # noqa


def partitions(n, kmax=3):
    """restricted growth strings: every grouping of n items"""
    def rec(i, used):
        if i == n:
            yield []
            return
        for g in range(min(used + 1, kmax)):
            for r in rec(i + 1, max(used, g + 1)):
                yield [g] + r
    return list(rec(0, 0))


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    xs = [0.0, 1.0] if q else [0.0, 1.0, 3.0]
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for x in itertools.product(xs, repeat=n * m):
            res.append(dict(kind='values', n=n, m=m, x=list(x)))
    N, M = (4, 3) if q else (5, 4)
    for n in range(1, N + 1):
        for m in range(1, M + 1):
            for g in partitions(n):
                res.append(dict(kind='groups', n=n, m=m, axis=0, g=g, lmax=3 if q else 4))
            if m != n:
                for g in partitions(m):
                    res.append(dict(kind='groups', n=n, m=m, axis=1, g=g, lmax=3 if q else 4))
    for n, m in ((2, 2), (3, 1)) + (() if q else ((3, 2),)):
        for mask in itertools.product((True, False), repeat=n * m):
            res.append(dict(kind='masks', n=n, m=m, mask=list(mask)))
    for n, m in ((2, 2), (3, 1)) + (() if q else ((3, 2), (4, 1))):
        for L in (1, 2) if q else (1, 2, 3):
            res.append(dict(kind='qmasks', n=n, m=m, L=L))
    for n, m in itertools.product(range(1, N + 1), range(1, M + 1)):
        res.append(dict(kind='scorer', n=n, m=m))
    for v in range(6):
        res.append(dict(kind='summary', v=v))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def mean(v):
    return math.fsum(v) / len(v)


# ---------------------------------------------------------------- definitions
def cell(metric, x, t, i, j):
    if metric == 'rmse':
        return (x[i][j] - t[i][j]) ** 2
    if metric == 'mape':
        return abs(x[i][j] - t[i][j]) / (abs(t[i][j]) + 1e-5)
    rowmeans = sorted(mean([abs(v) for v in r]) for r in t)
    k = len(rowmeans)
    med = rowmeans[k // 2] if k % 2 else (rowmeans[k // 2 - 1] + rowmeans[k // 2]) / 2
    off = 1e-12 + (0.01 * med if metric == 'nmae' else 0)
    return abs((x[i][j] - t[i][j]) / (mean([abs(v) for v in t[i]]) + off))


def pin(q, t, a):
    return (1 - a) * (q - t) if q > t else a * (t - q)


def grouped(cells, g, axis, post=lambda v: v):
    """cells[i][j]; axis 0: {group: [per column]}, axis 1: {group: [per row]}"""
    n, m = len(cells), len(cells[0])
    res = {}
    for k in sorted(set(g), key=str):
        if axis == 0:
            rows = [i for i in range(n) if g[i] == k]
            res[k] = [agg([cells[i][j] for i in rows], post) for j in range(m)]
        else:
            cols = [j for j in range(m) if g[j] == k]
            res[k] = [agg([cells[i][j] for j in cols], post) for i in range(n)]
    return res


def agg(v, post):
    v = [u for u in v if u == u]
    return post(mean(v)) if v else float('nan')


def frame_from(d, cols):
    return pd.DataFrame([d[k] for k in d], index=list(d), columns=cols)


IDX = pd.date_range('2021-03-05', periods=8, freq='1h')
COLS = ['z', 'b', 'k', 'a']


def point_metrics():
    import pyforecaster.metrics as M
    return [('rmse', M.rmse, lambda v: v ** 0.5), ('mape', M.mape, lambda v: v), ('nmae', M.nmae, lambda v: v),
            ('nmae0', partial(M.nmae, inter_normalization=False), lambda v: v)]


def check_table(ctx, got, want, key, info, tol=1e-9):
    """want: frame with group index; compare by label"""
    if not ctx.ok(isinstance(got, pd.DataFrame) and got.shape == want.shape and sorted(map(str, got.index)) == sorted(map(str, want.index))
                  and sorted(map(str, got.columns)) == sorted(map(str, want.columns)), key + ':labels',
                  '%s: %s/%s expected %s/%s' % (info, list(getattr(got, 'index', [])), list(getattr(got, 'columns', [])), list(want.index), list(want.columns))):
        return
    ctx.outcome(np.round(want.values, 6).tobytes())
    gi, gc = {str(k): i for i, k in enumerate(got.index)}, {str(k): i for i, k in enumerate(got.columns)}
    g = got.values[[gi[str(k)] for k in want.index]][:, [gc[str(k)] for k in want.columns]]
    ctx.eq(g, want.values, key, info, tol)


def one_point(ctx, x, t, g, axis, info, X=None):
    n, m = len(t), len(t[0])
    X = pd.DataFrame(x, index=IDX[:n], columns=COLS[:m])
    T = pd.DataFrame(t, index=IDX[:n], columns=COLS[:m])
    kx, kt = X.copy(), T.copy()
    for name, fn, post in point_metrics():
        if name.startswith('nmae') and any(mean([abs(v) for v in r]) == 0 for r in t) and name == 'nmae0':
            continue   # division by the bare 1e-12 regulariser
        cells = [[cell(name, x, t, i, j) for j in range(m)] for i in range(n)]
        want = frame_from(grouped(cells, g, axis, post), COLS[:m] if axis == 0 else list(IDX[:n]))
        got = fn(X, T, agg_index=np.array(g))
        ctx.step()
        check_table(ctx, got, want, name, info, 1e-7)
        if axis == 0 and len(set(g)) == 1:
            got = fn(X, T)
            ctx.step()
            ctx.eq(np.asarray(got).ravel(), want.values.ravel(), name + ':default-grouping', info, 1e-7)
        z = fn(T, T, agg_index=np.array(g))
        ctx.ok(np.allclose(z, 0, atol=1e-12), name + ':perfect', info)
    ctx.ok(frame_eq(X, kx) and frame_eq(T, kt), 'point:input-changed', info)


def one_quant(ctx, q, t, alphas, g, axis, info, only=None):
    """q[i][j][a]"""
    import pyforecaster.metrics as M
    n, m, L = len(t), len(t[0]), len(alphas)
    T = pd.DataFrame(t, index=IDX[:n], columns=COLS[:m])
    cols2 = COLS[:m] if axis == 0 else list(IDX[:n])
    Q = np.array(q, dtype=float).reshape(n, m, L)
    table = pd.DataFrame(Q.reshape(n, m * L), index=IDX[:n], columns=pd.MultiIndex.from_product([COLS[:m], alphas], names=['target', 'quantile']))
    forms = [('array', Q), ('table', table)]
    if m != L:
        forms.append(('swapped', np.swapaxes(Q, 1, 2).copy()))
    pins = [grouped([[pin(q[i][j][a], t[i][j], alphas[a]) for j in range(m)] for i in range(n)], g, axis) for a in range(L)]
    seen = lambda i, j, v: v if only is None or only[i][j] else float('nan')
    rel = [grouped([[seen(i, j, float(q[i][j][a] > t[i][j])) for j in range(m)] for i in range(n)], g, axis) for a in range(L)]
    groups = list(pins[0])
    wp = pd.concat({alphas[a]: frame_from(pins[a], cols2) for a in range(L)}, axis=1)
    wr = pd.concat({alphas[a]: frame_from(rel[a], cols2) for a in range(L)}, axis=1)
    wc = pd.DataFrame([[mean([pins[a][k][j] for a in range(L)]) for j in range(len(cols2))] for k in groups], index=groups, columns=cols2)
    for fname, F in forms:
        keep, kt = F.copy(), T.copy()
        inf = '%s form=%s levels=%s' % (info, fname, alphas)
        qs, rl = M.quantile_scores(F, T, alphas=alphas, agg_index=np.array(g))
        ctx.step()
        check_table(ctx, qs, wp, 'pinball', inf)
        check_table(ctx, rl, wr, 'reliability', inf)
        check_table(ctx, M.crps(F, T, alphas=alphas, agg_index=np.array(g)), wc, 'crps', inf)
        check_table(ctx, M.crps(F, T, alphas=alphas, agg_index=np.array(g), collapse_quantile_axis=False), wp, 'crps-levels', inf)
        check_table(ctx, M.reliability(F, T, alphas=alphas, agg_index=np.array(g)), wr, 'reliability', inf)
        sc = M.reliability(F, T, alphas=alphas, agg_index=np.array(g), get_score=True)
        ctx.step(4)
        w = wr.copy()
        for j, (a, _) in enumerate(w.columns):
            w.iloc[:, j] = w.iloc[:, j] - a
        check_table(ctx, sc, w, 'reliability-score', inf)
        if axis == 0 and len(set(g)) == 1:
            qs, rl = M.quantile_scores(F, T, alphas=alphas)
            ctx.eq(qs.values.ravel(), wp.values.ravel(), 'pinball:default-grouping', inf)
        ctx.ok(frame_eq(F, keep) and frame_eq(T, kt), 'quantile:input-changed', inf)
    if L > 1:
        lin = [k / (L - 1) for k in range(L)]
        if alphas == lin:
            qs, _ = M.quantile_scores(Q, T, agg_index=np.array(g))
            check_table(ctx, qs, wp, 'pinball:default-levels', info)


def values(ctx, case):
    n, m = case['n'], case['m']
    x = np.array(case['x']).reshape(n, m).tolist()
    for tv in itertools.product((0.0, 1.0, -2.0), repeat=n * m):
        t = np.array(tv).reshape(n, m).tolist()
        one_point(ctx, x, t, [0] * n, 0, 'x=%s t=%s' % (x, t))
        q = [[[v, v + 1.0] for v in r] for r in x]
        one_quant(ctx, q, t, [0.25, 0.75], [0] * n, 0, 'q=%s t=%s' % (q, t))
        ctx.state('values', str(x), str(t))
        ctx.trace()


def data(n, m, L, seed):
    rng = np.random.RandomState(seed + 3)
    t = (rng.permutation(np.arange(n * m)) * 3.0 - n * m).reshape(n, m)
    x = t + rng.permutation(np.arange(n * m)).reshape(n, m) - 1.5
    q = x[:, :, None] + np.linspace(-2, 2, max(L, 1))[None, None, :L] * (1 + np.arange(m))[None, :, None]
    return x.tolist(), t.tolist(), q.tolist()


def groups(ctx, case):
    n, m, g, axis = case['n'], case['m'], case['g'], case['axis']
    for lab in (g, ['g%d' % (7 - k) for k in g]):
        x, t, _ = data(n, m, 1, ctx.seed)
        one_point(ctx, x, t, lab, axis, 'n=%d m=%d groups=%s' % (n, m, lab))
        for L in range(1, case['lmax'] + 1):
            for alphas in ([round((k + 1) / (L + 1), 3) for k in range(L)], [k / (L - 1) for k in range(L)] if L > 1 else [0.5], [0.9, 0.1, 0.5, 0.3][:L]):
                _, _, q = data(n, m, L, ctx.seed)
                one_quant(ctx, q, t, alphas, lab, axis, 'n=%d m=%d groups=%s' % (n, m, lab))
            ctx.state('groups', n, m, str(lab), axis, L)
    ctx.trace()
    ctx.sample(n=n, m=m, grouping=lab)


def masks(ctx, case):
    import pyforecaster.metrics as M
    n, m = case['n'], case['m']
    mask = np.array(case['mask']).reshape(n, m)
    x, t, _ = data(n, m, 1, ctx.seed)
    X, T = pd.DataFrame(x, index=IDX[:n], columns=['p%d' % j for j in range(m)]), pd.DataFrame(t, index=IDX[:n], columns=COLS[:m])
    Mk = pd.DataFrame(mask, index=IDX[:n], columns=COLS[:m])
    kx, kt, km = X.copy(), T.copy(), Mk.copy()
    tm = [[t[i][j] if mask[i][j] else float('nan') for j in range(m)] for i in range(n)]
    for g in partitions(n):
        idxs = pd.DataFrame({'g': np.array(g), 'h': np.array(['w%d' % k for k in g], dtype=object)}, index=IDX[:n])
        ki = idxs.copy()
        res = M.summary_scores(X, T, [M.rmse, M.mape], idxs, mask=Mk)
        ctx.step()
        for name, fn, post in point_metrics()[:2]:
            cells = [[cell(name, x, t, i, j) if mask[i][j] else float('nan') for j in range(m)] for i in range(n)]
            w = grouped(cells, g, 0, post)
            want = pd.concat({'g': frame_from(w, COLS[:m]), 'h': frame_from({'w%d' % k: v for k, v in w.items()}, COLS[:m])}, axis=0)
            check_table(ctx, res[name], want, 'masked-' + name, 'mask=%s groups=%s' % (mask.tolist(), g), 1e-7)
        ctx.ok(frame_eq(X, kx) and frame_eq(T, kt) and frame_eq(Mk, km) and frame_eq(idxs, ki), 'summary:input-changed', str(case))
        ctx.state('masks', str(case), str(g))
    ctx.trace()


def qmasks(ctx, case):
    """quantile scores with every subset of missing targets, and summaries with every mask of whole rows"""
    import pyforecaster.metrics as M
    n, m, L = case['n'], case['m'], case['L']
    alphas = [round((k + 1) / (L + 1), 3) for k in range(L)]
    _, t, q = data(n, m, L, ctx.seed)
    nan = float('nan')
    for mask in itertools.product((True, False), repeat=n * m):
        mk = np.array(mask).reshape(n, m)
        tm = [[t[i][j] if mk[i][j] else nan for j in range(m)] for i in range(n)]
        for g in partitions(n):
            one_quant(ctx, q, tm, alphas, g, 0, 'missing targets %s groups=%s' % ((~mk).tolist(), g), only=mk)
            ctx.state('qmasks', str(case), str(mask), str(g))
    table = pd.DataFrame(np.array(q).reshape(n, m * L), index=IDX[:n], columns=pd.MultiIndex.from_product([COLS[:m], alphas], names=['target', 'quantile']))
    T = pd.DataFrame(t, index=IDX[:n], columns=COLS[:m])

    def quantile_crps(x, t, agg_index=None):
        return M.crps(x, t, alphas=alphas, agg_index=agg_index)

    def coverage(x, t, agg_index=None):
        return M.reliability(x, t, alphas=alphas, agg_index=agg_index)
    for rows in itertools.product((True, False), repeat=n):
        Mk = pd.DataFrame(np.array(rows).reshape(n, 1), index=IDX[:n], columns=['keep'])
        for g in partitions(n):
            res = M.summary_scores(table, T, [quantile_crps, coverage], pd.DataFrame({'g': np.array(g)}, index=IDX[:n]), mask=Mk)
            ctx.step()
            pins = [grouped([[pin(q[i][j][a], t[i][j], alphas[a]) if rows[i] else nan for j in range(m)] for i in range(n)], g, 0) for a in range(L)]
            rel = [grouped([[float(q[i][j][a] > t[i][j]) if rows[i] else nan for j in range(m)] for i in range(n)], g, 0) for a in range(L)]
            wr = pd.concat({alphas[a]: frame_from(rel[a], COLS[:m]) for a in range(L)}, axis=1)
            wc = pd.DataFrame([[mean([pins[a][k][j] for a in range(L)]) for j in range(m)] for k in pins[0]], index=list(pins[0]), columns=COLS[:m])
            info = 'rows kept %s groups=%s' % (list(rows), g)
            check_table(ctx, res['coverage'], pd.concat({'g': wr}), 'masked-reliability', info)
            check_table(ctx, res['quantile_crps'], pd.concat({'g': wc}), 'masked-crps', info, 1e-7)
    ctx.trace()


class Est:
    """recording estimator with known answers"""
    q_vect = [0.2, 0.5, 0.9]

    def __init__(self, x, q, df):
        self.x, self.q, self.df = x, q, df

    def predict(self, X):
        return self.x.loc[X.index] if self.df else self.x.loc[X.index].values

    def predict_quantiles(self, X):
        return self.q


def scorer(ctx, case):
    import pyforecaster.metrics as M
    n, m = case['n'], case['m']
    x, t, q = data(n, m, 3, ctx.seed)
    T = pd.DataFrame(t, index=IDX[:n], columns=COLS[:m])
    X = pd.DataFrame(x, index=IDX[:n], columns=COLS[:m])
    Q = np.array(q)
    axis = 0 if n == m else 1
    g = [0] * m
    for df in (True, False):
        for name, fn, post in point_metrics():
            e = Est(X.copy() if not df else X.rename(columns=lambda c: c + '_hat'), Q, df)
            got = M.make_scorer(fn)(e, X, T)
            ctx.step()
            cells = [[cell(name, x, t, i, j) for j in range(m)] for i in range(n)]
            w = grouped(cells, g, axis, post)
            ctx.eq(got, mean([mean(v) for v in w.values()]), 'scorer-' + name, 'n=%d m=%d frame=%s' % (n, m, df), 1e-7)
    e = Est(X, Q, True)
    al = Est.q_vect
    got = M.make_scorer(M.crps)(e, X, T)
    w = mean([mean([pin(q[i][j][a], t[i][j], al[a]) for a in range(3)]) for i in range(n) for j in range(m)])
    ctx.eq(got, w, 'scorer-crps', 'n=%d m=%d' % (n, m))
    got = M.make_scorer(partial(M.reliability, get_score=True))(e, X, T)
    w = mean([float(q[i][j][a] > t[i][j]) - al[a] for a in range(3) for i in range(n) for j in range(m)])
    ctx.eq(got, w, 'scorer-reliability', 'n=%d m=%d' % (n, m))
    ctx.step(2)
    ctx.state('scorer', n, m)
    ctx.trace()


def summary(ctx, case):
    """summary_score(s) input forms, continuous grouping variables binned by quantiles"""
    import pyforecaster.metrics as M
    v = case['v']
    n, m = 12, 2
    x, t, q = data(n, m, 3, ctx.seed)
    idx = pd.date_range('2021-03-05', periods=n, freq='1h')
    X = pd.DataFrame(x, index=idx, columns=['p0', 'p1'])
    T = pd.DataFrame(t, index=idx, columns=['z', 'b'])
    g = [k % 3 for k in range(n)]
    rm = dict((a, (b, c)) for a, b, c in point_metrics())
    cells = [[cell('rmse', x, t, i, j) for j in range(m)] for i in range(n)]
    want = frame_from(grouped(cells, g, 0, lambda u: u ** 0.5), ['z', 'b'])
    kx, kt = X.copy(), T.copy()
    if v == 0:
        forms = [(X, T, ['z', 'b']), (X.values, T, ['z', 'b']), (X, T.values, ['p0', 'p1'])]
        for A, B, cols in forms:
            r = M.summary_score(A, B, M.rmse, np.array(g))
            ctx.step()
            check_table(ctx, r, want.set_axis(cols, axis=1), 'summary-forms', str(type(A)), 1e-7)
        ctx.ok(frame_eq(X, kx) and frame_eq(T, kt), 'summary:input-changed', 'summary_score')
        Q = np.array(q)
        table = pd.DataFrame(Q.reshape(n, m * 3), index=idx, columns=pd.MultiIndex.from_product([['z', 'b'], [0.2, 0.5, 0.9]]))
        al = [0.2, 0.5, 0.9]
        for A, B in ((table, T), (table, T.values), (Q, T)):
            r = M.summary_score(A, B, partial(M.crps, alphas=al), np.array(g))
            ctx.step()
            w = pd.DataFrame([[mean([mean([pin(q[i][j][a], t[i][j], al[a]) for a in range(3)]) for i in range(n) if g[i] == k]) for j in range(m)] for k in range(3)],
                             index=[0, 1, 2], columns=['z', 'b'] if B is T else [0, 1])
            check_table(ctx, r, w, 'summary-quantile-forms', str(type(A)), 1e-7)
    else:
        # grouping columns: int64, int32, object, float with few values, float with many values
        cont = np.array([5.0, 1.0, 9.0, 3.0, 7.0, 11.0, 0.0, 2.0, 8.0, 4.0, 6.0, 10.0])
        I = pd.DataFrame({'i64': np.array(g), 'i32': np.arange(n, dtype='int32'), 'obj': np.array(['g%d' % k for k in range(n)], dtype=object),
                          'few': np.array([0.5 * (k % 2) for k in range(n)]), 'cont': cont}, index=idx)
        I = I[[['cont', 'i64'], ['i32', 'cont'], ['cont', 'few', 'obj'], ['i64', 'i32', 'obj'], ['few']][v - 1]]
        ki = I.copy()
        nq = 3
        res = M.summary_scores(X, T, [M.rmse, rm['mape'][0]], I, n_quantiles=nq)
        ctx.step()
        for name in ('rmse', 'mape'):
            cl = [[cell(name, x, t, i, j) for j in range(m)] for i in range(n)]
            post = dict((a, c) for a, b, c in point_metrics())[name]
            r = res[name]
            for k in I.columns:
                if k == 'cont':      # terciles of 0..11: {0..3},{4..7},{8..11}; order of the groups is by interval
                    gg = [int(c // 4) for c in cont]
                    sub = r.loc[k].values
                    w = grouped(cl, gg, 0, post)
                    ctx.eq(sub, np.array([w[u] for u in sorted(w)]), 'summary-binned', '%s of %s' % (name, list(I.columns)), 1e-7)
                else:
                    gg = list(I[k])
                    check_table(ctx, r.loc[k], frame_from(grouped(cl, gg, 0, post), ['z', 'b']), 'summary-groups', '%s by %s of %s' % (name, k, list(I.columns)), 1e-7)
        ctx.ok(frame_eq(I, ki) and frame_eq(X, kx), 'summary:input-changed', str(case))
    ctx.state('summary', v)
    ctx.trace()
