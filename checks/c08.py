"""C08: normalization and its inverse for every small combination of normalizers, expressions, targets and quantile tables."""
import itertools
import numpy as np
import pandas as pd
from mc import featmodel as fm
from mc.util import frame_eq

PID = 'C08'
PREFORK = True
BOUNDS = dict(quick='6 normalizer sets x 4 expression pairs x 4 target sets x 3 feature sets x augment on/off; plain tables and quantile tables '
                    '(3 levels, both column orders, any target order); repeated and target-less transforms',
              thorough='8 normalizer sets x 6 expression pairs x 6 target sets x 5 feature sets x 3 lengths x missing sample')
ASSUMPTIONS = ['expressions are invertible on the data used; round trip judged with relative tolerance 1e-7']
NORMS = [[dict(name='m', function=['mean'], agg='4h', lags=None)],
         [dict(name='m', function='mean', agg='4h', lags=1), dict(name='s', function='std', agg='3h', lags=[1])],
         [dict(name='m', function=None, agg=None, lags=[2])],
         [dict(name='m', function=['max'], agg=3, lags=None), dict(name='s', function=['min'], agg='2h', lags=[3])],
         [dict(name='s', function='std', agg='5h', lags=None), dict(name='m', function='mean', agg='2h', lags=None)],
         [dict(name='m', function='mean', agg='3h', lags=[2], rel=True), dict(name='s', function='max', agg=2, lags=1, rel=True)],
         [dict(name='m', function=['sum'], agg='2h', lags=None), dict(name='s', function=['mean'], agg='2h', lags=[1])],
         [dict(name='m', function=None, agg=None, lags=1), dict(name='s', function=['max'], agg='6h', lags=None)]]
# forward, inverse, python forward(value, normalizers)
EXPRS = [("df[t] - df['m']", "df[t] + df['m']", lambda v, n: v - n['m']),
         ("(df[t] - df['m']) / (df['s'] + 1)", "df[t] * (df['s'] + 1) + df['m']", lambda v, n: (v - n['m']) / (n['s'] + 1)),
         ("df[t] / (df['m'] + 7)", "df[t] * (df['m'] + 7)", lambda v, n: v / (n['m'] + 7)),
         ("np.log(df[t] + 1) * df['s']", "np.exp(df[t] / df['s']) - 1", lambda v, n: np.log(v + 1) * n['s']),
         ("df['m'] - df[t]", "df['m'] - df[t]", lambda v, n: n['m'] - v),
         ("df[t] * 3 - df['m'] * df['s']", "(df[t] + df['m'] * df['s']) / 3", lambda v, n: v * 3 - n['m'] * n['s'])]
TG = [([('a', [-1, -2])], ['a']), ([('a', [-3])], ['a']), ([('a', [-1]), ('b', [-1, -2])], ['a']), ([('b', [-1]), ('a', [-2, -1])], ['a', 'b']),
      ([('b', [-2])], ['a']), ([('a', [-1]), ('a', [-4])], ['a'])]
FT = [[], [('a', [0, 1])], [('a', [1]), ('b', [0])], [('b', [1, 2]), ('c', [0])], [('a', [0]), ('a', [3])]]


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for no, ex, tg, ft in itertools.product(range(6 if q else 8), range(4 if q else 6), range(4 if q else 6), range(3 if q else 5)):
        names = [n['name'] for n in NORMS[no]]
        if "'s'" in EXPRS[ex][0] and 's' not in names or "'m'" in EXPRS[ex][0] and 'm' not in names:
            continue
        res.append(dict(no=no, ex=ex, tg=tg, ft=ft, tier=tier))
    return res


def run(ctx, case):
    frames = [(14, [])] if case['tier'] == 'quick' else [(14, []), (9, []), (15, [[6, 0]])]
    for (n, nan), aug in itertools.product(frames, (True, False)):
        one(ctx, case, n, nan, aug)


def build(case, aug, with_expr=True):
    from pyforecaster.formatter import Formatter
    f = Formatter(augment=aug, dt=pd.Timedelta('1h'))
    for s, l in FT[case['ft']]:
        f.add_transform([s], lags=l)
    for s, l in TG[case['tg']][0]:
        f.add_target_transform([s], lags=l)
    for k, nr in enumerate(NORMS[case['no']]):
        f.add_target_normalizer(TG[case['tg']][1][k % len(TG[case['tg']][1])], nr['function'], nr['agg'], nr['lags'], name=nr['name'],
                                **({'relative_lags': True} if nr.get('rel') else {}))
    if with_expr:
        f.add_normalizing_fun(EXPRS[case['ex']][0], EXPRS[case['ex']][1])
    return f


def one(ctx, case, n, nan, aug):
    dt = pd.Timedelta('1h')
    df = fm.make_frame(n, ['a', 'b', 'c'], '1h', seed=ctx.seed, nan_at=nan)
    data = {c: list(df[c]) for c in df.columns}
    keepdf = df.copy()
    tsets, normed = TG[case['tg']]
    norm_src = {nr['name']: normed[k % len(normed)] for k, nr in enumerate(NORMS[case['no']])}
    normed = set(norm_src.values())
    info = 'normalizers=%s expr=%s targets=%s features=%s augment=%s' % (NORMS[case['no']], EXPRS[case['ex']][0], TG[case['tg']], FT[case['ft']], aug)
    # reference
    N = {}
    for nr in NORMS[case['no']]:
        fun = nr['function'] if not isinstance(nr['function'], str) else [nr['function']]
        N[nr['name']] = fm.columns(dict(names=[norm_src[nr['name']]], functions=fun, agg=nr['agg'], lags=nr['lags'], rel=nr.get('rel', False)), data, dt)[0]['vals']
    F = [e for s, l in FT[case['ft']] for e in fm.columns(dict(names=[s], functions=None, agg=None, lags=l), data, dt)]
    T = [e for s, l in tsets for e in fm.columns(dict(names=[s], functions=None, agg=None, lags=l), data, dt)]
    fwd = EXPRS[case['ex']][2]

    def col(e, norm=True):
        return [fwd(v, {k: N[k][t] for k in N}) if (norm and e['src'] in normed) else v for t, v in enumerate(e['vals'])]
    complete = [all(N[k][t] == N[k][t] for k in N) and all(e['vals'][t] == e['vals'][t] for e in F) for t in range(n)]
    both = [c and all(e['vals'][t] == e['vals'][t] for e in T) for t, c in enumerate(complete)]
    if not any(both):
        ctx.count('empty')
        return

    def wanted(mask, norm=True):
        d = pd.DataFrame({e['col']: col(e, norm) for e in F}, index=df.index)
        d = pd.concat([d, pd.DataFrame(N, index=df.index)[[nr['name'] for nr in NORMS[case['no']]]]], axis=1)
        if aug:
            d = pd.concat([df, d], axis=1)
        return d.loc[mask]
    wy = pd.DataFrame({e['col']: col(e) for e in T}, index=df.index).loc[both]
    wraw = pd.DataFrame({e['col']: e['vals'] for e in T}, index=df.index).loc[both]
    f = build(case, aug)
    for rep in range(2):
        x, y = f.transform(df, time_features=False)
        ctx.step()
        ctx.eq(x, wanted(both), 'features', '%s call %d' % (info, rep), 1e-7)
        ctx.eq(y, wy, 'target', '%s call %d' % (info, rep), 1e-7)
    xn, _ = f.transform(df, time_features=False, return_target=False)
    ctx.step()
    ctx.eq(xn, wanted(complete), 'features-at-prediction', info, 1e-7)
    ctx.ok(frame_eq(df, keepdf), 'input-changed', info)
    # without expression: nothing normalized, normalizers still there
    g = build(case, aug, with_expr=False)
    x0, y0 = g.transform(df, time_features=False)
    ctx.step()
    ctx.eq(x0, wanted(both, False), 'no-expression', info, 1e-7)
    ctx.eq(y0, wraw, 'no-expression-target', info, 1e-7)
    # inverse, point forecasts
    kx, ky = x.copy(), y.copy()
    for rep in range(2):
        back = f.denormalize(x, y)
        ctx.step()
        ctx.eq(back, wraw, 'round-trip', '%s repetition %d' % (info, rep), 1e-7)
        ctx.ok(frame_eq(x, kx) and frame_eq(y, ky), 'denormalize-changes-input', info)
    # a subset of rows denormalizes to the same values
    if len(y) > 2:
        sub = f.denormalize(x.iloc[1::2], y.iloc[1::2])
        ctx.step()
        ctx.eq(sub, wraw.iloc[1::2], 'round-trip-rows', info, 1e-7)
    # quantile tables: raw quantiles -> expression by hand -> denormalize
    for order, taus in (('target', [0.1, 0.5, 0.9]), ('level', [0.1, 0.5, 0.9]), ('target', [0.9, 0.1])):
        raw, nrm = {}, {}
        for j, e in enumerate(T):
            for k, tau in enumerate(taus):
                vals = [v + 0.3 * (k + 1) + 0.05 * j for v in e['vals']]
                raw[(e['col'], tau)] = vals
                nrm[(e['col'], tau)] = col(dict(src=e['src'], vals=vals))
        keys = list(raw)
        if order == 'level':
            keys = sorted(keys, key=lambda c: (c[1], [e['col'] for e in T].index(c[0])))
        mk = lambda d: pd.DataFrame({i: d[c] for i, c in enumerate(keys)}, index=df.index).set_axis(pd.MultiIndex.from_tuples(keys), axis=1).loc[both]
        R, Q = mk(raw), mk(nrm)
        kq = Q.copy()
        for rep in range(2):
            back = f.denormalize(x, Q)
            ctx.step()
            ctx.eq(back, R, 'quantile-round-trip', '%s order=%s levels=%s repetition %d' % (info, order, taus, rep), 1e-7)
            ctx.ok(frame_eq(Q, kq) and frame_eq(x, kx), 'denormalize-changes-quantiles', info)
    ctx.state(str(case), n, str(nan), aug)
    ctx.trace()
    ctx.outcome(tuple(both))
    ctx.sample(config=info, first_row=[wy.iloc[0].tolist(), wraw.iloc[0].tolist()])
