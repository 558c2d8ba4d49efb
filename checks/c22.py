"""C22: hierarchical reconciliation: every rooted hierarchy within bounds x column order x method x steps, against the projection computed from the definition."""
import contextlib
import io
import itertools
import numpy as np
import pandas as pd

PID = 'C22'
PREFORK = True
BOUNDS = dict(quick='structure: every rooted hierarchy up to 6 nodes x every order of its declaration x every column order of the bottom series x text/number/mixed names; direct reconciliation: every hierarchy '
                    'up to 5 nodes x 3 methods x every column permutation (120); whole pipeline: every hierarchy up to 6 nodes x 3 methods x 1..3 steps x 3 layouts of the prediction table; '
                    'error scenarios: every hierarchy up to 4 nodes x every assignment of 3 hours to 4 training rows x every order of test hours; scenarios, quantiles and scores: hierarchies up to 5 nodes x methods x steps',
              thorough='hierarchies up to 7 nodes; direct reconciliation up to 6 nodes (720 permutations)')
ASSUMPTIONS = ['training errors are not all exactly zero (the covariance of a perfect model is singular)', 'every series has the same timestamps',
               'scenarios are asked for hours of day present in training']

Q = np.array([0.1, 0.5, 0.8])
NAMES = dict(s=['z', 'y', 'b', 'a', 'm', 'k', 'c'], i=[5, 3, 9, 0, 7, 2, 1], m=['z', 'y', 0, 'b', 1, 'k', 2])


def trees(n):
    """all unordered rooted trees with n nodes as parent vectors (canonical representatives)"""
    seen, res = set(), []
    for p in itertools.product(*[range(i) for i in range(1, n)]):
        par = (None,) + p

        def canon(k):
            return tuple(sorted(canon(c) for c in range(n) if par[c] == k))
        c = canon(0)
        if c not in seen:
            seen.add(c)
            res.append(par)
    return res


def hier(par, names, order=None):
    n = len(par)
    keys = [k for k in range(n) if k in par]
    if order is not None:
        keys = [keys[i] for i in order]
    return {names[k]: [names[c] for c in range(n) if par[c] == k] for k in keys}


def leaves(h, k):
    return [k] if k not in h else [l for c in h[k] for l in leaves(h, c)]


def depth(h, k):
    for p in h:
        if k in h[p]:
            return 1 + depth(h, p)
    return 0


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for n in range(2, 7 if q else 8):
        for par in trees(n):
            res.append(dict(kind='structure', par=list(par)))
    for n in range(2, 6 if q else 7):
        for par in trees(n):
            for m in ('dummy', 'minT', 'bayes'):
                res.append(dict(kind='direct', par=list(par), m=m))
    for n in range(2, 7 if q else 8):
        for par in trees(n):
            for m in ('dummy', 'minT', 'bayes'):
                res.append(dict(kind='pipe', par=list(par), m=m, scen=n <= (5 if q else 6)))
    res.append(dict(kind='real'))
    for n in (2, 3, 4):
        for par in trees(n):
            for hours in itertools.product((0, 1, 2), repeat=4):
                res.append(dict(kind='errscen', par=list(par), hours=list(hours)))
    return res


def errscen(ctx, case):
    """scenarios made of training errors: every path is the forecast plus the errors of one training time of the same hour, hence coherent errors give coherent scenarios"""
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    par, hours = case['par'], case['hours']
    n = len(par)
    h = hier(par, NAMES['s'])
    cols = list(NAMES['s'][:n])
    hr = HR(h, method='minT', q_vect=Q, n_scenarios=3)
    tr = pd.DatetimeIndex([pd.Timestamp('2021-01-01') + pd.Timedelta(days=d, hours=hr_) for d, hr_ in enumerate(hours)])
    err = pd.DataFrame(np.array([[1 + 10.0 ** j * (i + 1) for j in range(n)] for i in range(4)]), index=tr, columns=cols)
    for te_hours in itertools.chain.from_iterable(itertools.permutations(sorted(set(hours)), k) for k in range(1, len(set(hours)) + 1)):
        te_hours = list(te_hours) + [te_hours[0]]
        te = pd.DatetimeIndex([pd.Timestamp('2021-02-01') + pd.Timedelta(days=d, hours=v) for d, v in enumerate(te_hours)])
        hat = pd.DataFrame(np.arange(len(te) * n, dtype=float).reshape(len(te), n) * 7, index=te, columns=cols)
        for n_scen in (1, 4):
            s = np.asarray(hr.get_scenarios(err.copy(), hat.copy(), n_scen), float)
            ctx.step()
            ctx.state('errscen', str(par), str(hours), str(te_hours), n_scen)
            info = '%s test hours %s' % (case, te_hours)
            if not ctx.ok(s.shape == (len(te), n, n_scen), 'errscen:shape', '%s: %s' % (info, s.shape)):
                continue
            for i, v in enumerate(te_hours):
                rows = err.values[np.asarray(hours) == v]
                for k in range(n_scen):
                    d = s[i, :, k] - hat.values[i]
                    ctx.ok(np.any(np.all(np.abs(rows - d) < 1e-9, axis=1)), 'errscen:row', '%s: row %d adds %s, training errors of that hour are %s' % (info, i, d, rows.tolist()))
    ctx.trace()


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


class Probe:
    """a base forecaster that returns the forecasts written in the feature table"""
    log = []

    def __init__(self, **kw):
        self.q_vect = Q

    def fit(self, x, y):
        Probe.log.append((x, y))
        self.cols = list(y.columns)
        return self

    def predict(self, x, **kw):
        return pd.DataFrame(x[['p%d' % k for k in range(len(self.cols))]].values, index=x.index, columns=self.cols)

    def predict_quantiles(self, x, dataframe=True, **kw):
        p = self.predict(x).values[:, :, None] + 10 * (Q - 0.5)
        if not dataframe:
            return p
        return pd.DataFrame(p.reshape(len(x), -1), index=x.index, columns=pd.MultiIndex.from_product([self.cols, Q]))


def cov(e):
    e = np.asarray(e, float)
    e = e - e.mean(0)
    c = e.T @ e / len(e)
    return 0.9 * c + 0.1 * np.trace(c) / len(c) * np.eye(len(c))


def reference(h, bottom, err, method):
    """function mapping {series: value} to the reconciled {series: value}; err: {series: training errors}"""
    agg = list(h)
    A = np.array([[1.0 * (b in leaves(h, a)) for b in bottom] for a in agg])
    S = np.vstack([A, np.eye(len(bottom))])
    names = agg + bottom
    if method == 'bayes':
        Cb, Cu = cov(np.array([err[b] for b in bottom]).T), cov(np.array([err[a] for a in agg]).T)
        M = Cb @ A.T
        W = np.linalg.solve((Cu + A @ Cb @ A.T).T, M.T).T

        def f(v):
            b, u = np.array([v[k] for k in bottom]), np.array([v[k] for k in agg])
            return dict(zip(names, S @ (b + W @ (u - A @ b))))
    else:
        L = np.eye(len(names)) if method == 'dummy' else np.linalg.inv(cov(np.array([err[k] for k in names]).T))
        P = np.linalg.solve(S.T @ L @ S, S.T @ L)

        def f(v):
            return dict(zip(names, S @ (P @ np.array([v[k] for k in names]))))
    return f


def values(h, names, T, K, salt):
    """target y (coherent) and base forecasts p, [series][row, step], all distinct enough to be told apart"""
    bottom = [n for n in names if n not in h]
    r = np.random.RandomState(salt)
    y = {b: r.randint(-9, 10, (T, K)) + 0.25 * i for i, b in enumerate(bottom)}
    for a in h:
        y[a] = sum(y[l] for l in leaves(h, a))
    p = {n: y[n] + r.randint(-3, 4, (T, K)) * (1 + 0.5 * np.arange(K)) for n in names}
    return y, p


def structure(ctx, case):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    par = case['par']
    for kind, names in NAMES.items():
        n = len(par)
        nk = len(set(par[1:]))
        for order in itertools.permutations(range(nk)):
            h = hier(par, names, order)
            hr = HR(h)
            u = hr.get_unrolled_hierarchy()
            for k in h:
                ctx.step()
                ctx.ok(sorted(map(str, u[k])) == sorted(map(str, leaves(h, k))) and all(any(x == l and type(x) in (type(l), np.int64, np.str_) for l in leaves(h, k)) for x in u[k]), 'leaves', '%s of %s: %s' % (k, h, list(u[k])))
            lev = hr.get_hierarchy_levels()['level'].to_dict()
            ctx.state('levels', kind, order, tuple(par[1:]))
            ctx.eq(len(lev), n, 'levels', str(h))
            for k in names[:n]:
                ctx.eq(lev.get(k), depth(h, k), 'levels', '%s: level of %s' % (h, k))
            bottom = [k for k in names[:n] if k not in h]
            perms = itertools.permutations(bottom) if len(bottom) <= 4 else [bottom, bottom[::-1], bottom[1:] + bottom[:1]]
            for bp in perms:
                bp = list(bp)
                for cols in (list(h) + bp, bp + list(h), bp[:1] + list(h) + bp[1:]):
                    ctx.step()
                    ctx.state('matrix', kind, tuple(par[1:]), order, tuple(cols))
                    y = pd.DataFrame(np.zeros((3, n)), columns=cols)
                    hr.get_summation_matrix(y, h)
                    names_rows = list(h) + bp
                    ref = np.array([[1.0 * (b in leaves(h, r)) for b in bp] for r in names_rows])
                    ctx.eq(hr.bottom_series, bp, 'bottom', '%s %s' % (h, cols))
                    ctx.eq(np.asarray(hr.s_matrix, float), ref, 'summation', '%s %s' % (h, cols), tol=0)
                    ctx.eq((hr.n_b, hr.n_u), (len(bp), len(h)), 'sizes', '%s %s' % (h, cols))
    ctx.sample(hierarchy=str(h), levels=str(lev))
    ctx.trace()


def coherent(ctx, h, get, key, info):
    for a in h:
        ctx.eq(get(a), sum(get(l) for l in leaves(h, a)), key, '%s: %s is the sum of %s' % (info, a, leaves(h, a)), tol=1e-8)


def direct(ctx, case):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    names = NAMES['s'][:len(case['par'])]
    h = hier(case['par'], names)
    bottom = [k for k in names if k not in h]
    T = 7
    y, p = values(h, names, T, 1, 1)
    ix = pd.date_range('2021-01-01', periods=T, freq='1h')
    Y, P = (pd.DataFrame({k: v[k][:, 0] for k in names}, index=ix) for v in (y, p))
    ref = reference(h, bottom, {k: (y[k] - p[k])[:, 0] for k in names}, case['m'])
    want = [ref({k: p[k][t, 0] for k in names}) for t in range(T)]
    for i, cols in enumerate(itertools.permutations(names)):
        cols = list(cols)
        info = '%s %s columns %s' % (h, case['m'], cols)
        hr = HR(h, method=case['m'])
        hr.fit_reconciliation(Y[cols], P[names], h)
        for cols2 in (cols, cols[::-1]):
            Pc = P[cols2].copy()
            r = hr.reconcile(Pc)
            ctx.step()
            ctx.state('direct', case['m'], tuple(case['par'][1:]), tuple(cols), tuple(cols2))
            ctx.ok(list(r.columns) == cols2 and r.index.equals(ix), 'direct:labels', info)
            ctx.ok(Pc.equals(P[cols2]), 'direct:input-changed', info)
            for k in names:
                ctx.eq(r[k].values, [w[k] for w in want], 'direct:value', '%s: %s' % (info, k), tol=1e-7)
            coherent(ctx, h, lambda k: r[k].values, 'direct:coherent', info)
            c = hr.reconcile(Y[cols2])
            ctx.eq(c[names].values, Y[names].values, 'direct:unbiased', info, tol=1e-7)
    ctx.outcome(case['m'], len(names))
    ctx.sample(hierarchy=str(h), method=case['m'], reconciled={str(k): round(v, 3) for k, v in want[0].items()})
    ctx.trace()


def table(p, names, K, order, rows):
    x = []
    for n in order:
        d = pd.DataFrame({'p%d' % k: p[n][rows, k] for k in range(K)}, index=IX[rows])
        d['name'] = pd.Series([n] * len(d), index=d.index, dtype=object)
        x.append(d)
    return pd.concat(x)


IX = pd.date_range('2021-01-01', periods=16, freq='6h')


def pipe(ctx, case):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    n = len(case['par'])
    for K, kind in [(1, 's'), (2, 'm'), (3, 's')] if n <= 5 else [(2, 's'), (3, 'm')]:
        names = NAMES[kind][:n]
        h = hier(case['par'], names)
        bottom = [k for k in names if k not in h]
        y, p = values(h, names, 16, K, 3 + K)
        tg = ['t_%d' % (K - k) for k in range(K)]        # labels in an order that is not alphabetical
        tr = np.arange(12)
        x_tr = table(p, names, K, names, tr)
        y_tr = pd.concat([pd.DataFrame(y[m][tr], index=IX[tr], columns=tg) for m in names])
        xs, ys = x_tr.copy(), y_tr.copy()
        Probe.log = []
        hr = HR(h, method=case['m'], base_forecaster_class=Probe, n_scenarios=4, q_vect=Q).fit(x_tr, y_tr)
        info = '%s %s steps %d' % (h, case['m'], K)
        ctx.ok(x_tr.equals(xs) and y_tr.equals(ys), 'pipe:input-changed', info)
        for (lx, ly), who in zip(Probe.log, [[a] for a in h] + [bottom]):
            sel = x_tr['name'].isin(who).values
            ctx.ok(lx.equals(x_tr.loc[sel].drop('name', axis=1)) and ly.equals(y_tr.loc[sel]), 'pipe:training-rows', '%s model of %s' % (info, who))
        refs = [reference(h, bottom, {m: (y[m] - p[m])[tr, k] for m in names}, case['m']) for k in range(K)]
        for order, rows in ((names, tr), (names[::-1], np.arange(10, 16)), (bottom[::-1] + list(h)[::-1], np.array([13])), (names, np.array([3, 14, 15]))):
            x = table(p, names, K, order, rows)
            i2 = '%s table order %s rows %s' % (info, order, list(rows))
            xc = x.copy()
            r = hr.predict(x)
            v = hr.predict(x, method='vanilla')
            ctx.step(2)
            ctx.state('pipe', case['m'], tuple(case['par'][1:]), K, tuple(map(str, order)), tuple(rows))
            ctx.ok(x.equals(xc), 'pipe:input-changed', i2)
            for m, k in itertools.product(names, range(K)):
                ctx.eq(v[(m, tg[k])].values, p[m][rows, k], 'pipe:vanilla', '%s %s %s' % (i2, m, tg[k]), tol=0)
                ctx.eq(r[(m, tg[k])].values, [refs[k]({z: p[z][t, k] for z in names})[m] for t in rows], 'pipe:value', '%s %s %s' % (i2, m, tg[k]), tol=1e-7)
            ctx.ok(r.index.equals(IX[rows]) and v.index.equals(IX[rows]) and r.shape[1] == n * K and v.shape[1] == n * K, 'pipe:shape', i2)
            for k in range(K):
                coherent(ctx, h, lambda m: r[(m, tg[k])].values, 'pipe:coherent', i2)
            c = hr.predict(table(y, names, K, order, rows))
            for m, k in itertools.product(names, range(K)):
                ctx.eq(c[(m, tg[k])].values, y[m][rows, k], 'pipe:unbiased', '%s %s %s' % (i2, m, tg[k]), tol=1e-7)
            if case['scen']:
                scen(ctx, hr, h, names, x, rows, r, v, y, p, tg, refs, K, tr, i2)
        ctx.outcome(case['m'], n, K)
    ctx.sample(hierarchy=str(h), method=case['m'], steps=K)
    ctx.trace()


def scen(ctx, hr, h, names, x, rows, r, v, y, p, tg, refs, K, tr, info):
    from pyforecaster.metrics import crps, rmse, reliability
    for method, base in (('reconciled', r), ('vanilla', v)):
        if method == 'reconciled':
            fit = {(m, k): np.array([refs[k]({z: p[z][t, k] for z in names})[m] for t in tr]) for m in names for k in range(K)}
        else:
            fit = {(m, k): p[m][tr, k] for m in names for k in range(K)}
        E = {(m, k): y[m][tr, k] - fit[m, k] for m in names for k in range(K)}
        np.random.seed(5)
        s = hr.predict_scenarios(x, method=method)
        ctx.step()
        ctx.ok(s.index.equals(IX[rows]) and s.shape[1] == len(names) * K * hr.n_scenarios, 'scen:shape', info)
        for i, t in enumerate(rows):
            for sc in range(hr.n_scenarios):
                got = {(m, k): s[(m, sc, tg[k])].values[i] - base[(m, tg[k])].values[i] for m in names for k in range(K)}
                hit = [j for j in range(len(tr)) if IX[tr[j]].hour == IX[t].hour and all(abs(got[z] - E[z][j]) < 1e-6 for z in E)]
                ctx.ok(len(hit) > 0, 'scen:joint-error', '%s %s row %s scenario %d: %s' % (info, method, IX[t], sc, got))
                if method == 'reconciled':
                    for k in range(K):
                        coherent(ctx, h, lambda m: s[(m, sc, tg[k])].values[i], 'scen:coherent', info)
    np.random.seed(5)
    s = hr.predict_scenarios(x)
    np.random.seed(5)
    qs = hr.predict_quantiles(x)
    ctx.step(2)
    for m, k in itertools.product(names, range(K)):
        sv = np.stack([s[(m, sc, tg[k])].values for sc in range(hr.n_scenarios)], 1)
        for q in Q:
            ctx.eq(qs[(m, tg[k], q)].values, np.quantile(sv, q, axis=1), 'quantiles', '%s %s %s %s' % (info, m, tg[k], q), tol=1e-9)
    qv = hr.predict_quantiles(x, method='vanilla')
    ctx.step()
    for m, k, q in itertools.product(names, range(K), Q):
        ctx.eq(qv[(m, tg[k], q)].values, p[m][rows, k] + 10 * (q - 0.5), 'quantiles:vanilla', '%s %s %s %s' % (info, m, tg[k], q), tol=1e-9)
    ctx.ok(qv.shape[1] == len(names) * K * len(Q) and qs.shape[1] == len(names) * K * len(Q), 'quantiles:shape', info)
    if len(rows) < 2:
        return
    # scores of every level of the hierarchy
    yt = pd.concat([pd.DataFrame(y[m][rows], index=IX[rows], columns=tg) for m in x['name'].unique()])
    lev = {m: depth(h, m) for m in names}
    for what, hat, kw in (('rmse', r, {}), ('rmse', v, {}), ('crps', qs, dict(alphas=Q)), ('crps', qv, dict(alphas=Q)), ('reliability', qv, dict(alphas=Q))):
        kp = hr.compute_kpis(hat, x, yt, dict(rmse=rmse, crps=crps, reliability=reliability)[what], **kw)
        ctx.step()
        for k, L in itertools.product(range(K), sorted(set(lev.values()))):
            ms = [m for m in names if lev[m] == L]
            if what == 'rmse':
                want = np.mean([np.sqrt(np.mean((hat[(m, tg[k])].values - y[m][rows, k]) ** 2)) for m in ms])
                got = kp.loc[L][[c for c in kp.columns if c == tg[k]]].values
                ctx.eq(got, [want], 'kpi:rmse', '%s level %d %s' % (info, L, tg[k]), tol=1e-9)
            else:
                for q in Q:
                    e = [hat[(m, tg[k], q)].values - y[m][rows, k] for m in ms]
                    if what == 'reliability':
                        ctx.eq(kp.loc[L][(tg[k], q)], np.mean([(z > 0).mean() for z in e]), 'kpi:reliability', '%s level %d %s %s' % (info, L, tg[k], q), tol=1e-9)
                if what == 'crps':
                    want = np.mean([[np.where(z >= 0, (1 - q) * z, -q * z).mean() for z in [hat[(m, tg[k], q)].values - y[m][rows, k] for m in ms]] for q in Q])
                    ctx.eq(np.ravel(kp.loc[L][[c for c in kp.columns if c == tg[k]]].values.astype(float)), [want], 'kpi:crps', '%s level %d %s' % (info, L, tg[k]), tol=1e-9)


def real(ctx, case):
    """with the linear base forecaster: the model of each level is the one fitted on that level's rows"""
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    from pyforecaster.forecaster import LinearForecaster
    h = {'z': ['y', 'b'], 'y': ['a', 'm']}
    names = ['z', 'y', 'b', 'a', 'm']
    ix = pd.date_range('2021-01-01', periods=60, freq='1h')
    r = np.random.RandomState(0)
    y = {b: r.randn(60, 2) + i for i, b in enumerate(['b', 'a', 'm'])}
    y['y'], y['z'] = y['a'] + y['m'], y['a'] + y['m'] + y['b']
    x = pd.concat([pd.DataFrame(np.c_[y[n][:, :1] + r.randn(60, 1), r.randn(60, 1)], index=ix, columns=['f', 'g']).assign(name=n) for n in names])
    Y = pd.concat([pd.DataFrame(y[n], index=ix, columns=['t_0', 't_1']) for n in names])
    for m in ('dummy', 'minT', 'bayes'):
        hr = HR(h, method=m, q_vect=Q, n_scenarios=3).fit(x, Y)
        v = hr.predict(x, method='vanilla')
        qv = hr.predict_quantiles(x, method='vanilla')
        rr = hr.predict(x)
        ctx.step(3)
        for who in [[k] for k in h] + [['b', 'a', 'm']]:
            sel = x['name'].isin(who).values
            f = LinearForecaster().fit(x.loc[sel].drop('name', axis=1), Y.loc[sel])
            for k in who:
                xk = x.loc[(x['name'] == k).values].drop('name', axis=1)
                ctx.eq(v[k].values, f.predict(xk).values, 'real:vanilla', '%s %s' % (m, k), tol=1e-9)
                ctx.eq(qv[k].values, f.predict_quantiles(xk).values, 'real:quantiles', '%s %s' % (m, k), tol=1e-9)
        for t in ('t_0', 't_1'):
            coherent(ctx, h, lambda k: rr[(k, t)].values, 'real:coherent', m)
        ctx.state('real', m)
    ctx.trace()
