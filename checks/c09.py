"""C09: global stacking of 1..3 series against the reference model of each single series; parallel chunks in all completion orders."""
import itertools
import numpy as np
import pandas as pd
from mc import featmodel as fm, fakeray
from mc.util import frame_eq

PID = 'C09'
PREFORK = True
BOUNDS = dict(quick='1..3 series x {flat, two-level} x shared covariates 0..2 x private covariate 0/1 x 3 transform sets x memory reduction on/off x '
                    'zone naive/local x missing samples; train then predict; re-ordering on/off; 1..5 series in parallel on 1..4 processors, chunks of <=3 with all completion orders',
              thorough='1..4 series, 6 transform sets, 3 missing-sample patterns, 1..7 series in parallel on 1..4 processors, chunks of <=4 with all completion orders')
ASSUMPTIONS = ['ray is replaced by an in-process scheduler that pickles arguments and results and runs tasks in the prescribed order',
               'memory reduction is judged at float32 precision', 'only column labels, not their order, are specified for the raw covariates']
DT = pd.Timedelta('1h')
TSETS = [dict(target=[0, 1], cov=dict(functions=None, lags=[0])),
         dict(target=[1, 3], cov=dict(functions=['mean'], agg='2h', lags=[0, 1])),
         dict(target=[0, 1, 2], cov=dict(functions=None, lags=[-1, 1])),
         dict(target=[2], cov=dict(functions=['max'], agg=3, lags=[1], rel=True)),
         dict(target=[0, 2, 4], cov=dict(functions=None, lags=[0, 2])),
         dict(target=[1], cov=dict(functions=['min', 'max'], agg='2h', lags=None))]


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for ns, lay, sh, pr, ts in itertools.product(range(1, 4 if q else 5), ('flat', 'multi'), range(0, 3), (0, 1), range(3 if q else 6)):
        if lay == 'flat' and pr:
            continue
        if sh + pr == 0 and ts:
            continue
        for tz in (None, 'Europe/Zurich'):
            for miss in (0, 1) if q else (0, 1, 2):
                res.append(dict(kind='serial', ns=ns, lay=lay, sh=sh, pr=pr, ts=ts, tz=tz, miss=miss))
    for ns in range(1, 6 if q else 8):
        for lay in ('flat', 'multi'):
            for cpus in (1, 2, 3, 4):
                k = min(ns, cpus)
                # more series than processors: every batch size and remainder
                orders = list(itertools.permutations(range(k))) if k <= (3 if q else 4) and ns <= 4 else [tuple(range(k)), tuple(range(k))[::-1]]
                for perm in sorted(set(orders)):
                    res.append(dict(kind='parallel', ns=ns, lay=lay, sh=1, pr=0, ts=1, tz=None, miss=0, cpus=cpus, order=list(perm)))
    return res


def build(case):
    from pyforecaster.formatter import Formatter
    f = Formatter(dt=DT)
    T = TSETS[case['ts']]
    f.add_transform(['target'], lags=T['target'])
    covs = ['s%d' % k for k in range(case['sh'])] + ['p'] * case['pr']
    for c in covs:
        f.add_transform([c], T['cov']['functions'], T['cov'].get('agg'), T['cov']['lags'], T['cov'].get('rel', False))
    f.add_target_transform(['target'], lags=[-1, -2])
    return f, covs


def data(case, seed, n=14):
    names = ['u%d' % i for i in range(case['ns'])]
    rng = np.random.RandomState(seed + 5)
    idx = pd.date_range('2021-10-30 20:00', periods=n, freq='1h', tz=case['tz'])
    series = {}
    for i, u in enumerate(names):
        d = {'target': rng.permutation(np.arange(n) * 3 + 100 * i) + 0.5}
        if case['pr']:
            d['p'] = rng.permutation(np.arange(n) * 7 + 1000 * (i + 1)) + 0.25
        series[u] = d
    shared = {'s%d' % k: rng.permutation(np.arange(n) * 5 + 10000 * (k + 1)) + 0.125 for k in range(case['sh'])}
    if case['miss']:
        k = {1: 0, 2: case['ns'] - 1}[case['miss']]
        series[names[k]]['target'][5] = np.nan
    if case['lay'] == 'flat':
        df = pd.DataFrame({**{u: d['target'] for u, d in series.items()}, **shared}, index=idx)
    else:
        cols = {}
        for u, d in series.items():
            cols[(u, 'load_' + u)] = d['target']
            if case['pr']:
                cols[(u, 'p')] = d['p']
        for s, v in shared.items():
            cols[('weather', s)] = v
        df = pd.DataFrame({i: v for i, v in enumerate(cols.values())}, index=idx)
        df.columns = pd.MultiIndex.from_tuples(list(cols))
    return df, names, series, shared, idx


def reference(case, series, shared, idx, u, covs, ret):
    T = TSETS[case['ts']]
    d = {**{k: list(v) for k, v in series[u].items()}, **{k: list(v) for k, v in shared.items()}}
    F = fm.columns(dict(names=['target'], functions=None, lags=T['target']), d, DT)
    for c in covs:
        F += fm.columns(dict(dict(T['cov'], names=[c])), d, DT)
    Y = fm.columns(dict(names=['target'], functions=None, lags=[-1, -2]), d, DT)
    n = len(idx)
    keep = [all(e['vals'][t] == e['vals'][t] for e in F + (Y if ret else [])) for t in range(n)]
    x = pd.DataFrame({**d, **{e['col']: e['vals'] for e in F}}, index=idx)
    x['hour'], x['dayofweek'] = idx.hour, idx.dayofweek
    x['minuteofday'] = idx.hour * 60
    if case['tz']:
        x['utc_offset'] = [t.utcoffset().total_seconds() / 3600 for t in idx]
    x['name'] = u
    y = pd.DataFrame({e['col']: e['vals'] for e in Y}, index=idx)
    return x.loc[keep], y.loc[keep], F


def compare(ctx, got, want, key, info, tol):
    if not ctx.ok(sorted(map(str, got.columns)) == sorted(map(str, want.columns)), key + ':columns', '%s: %s expected %s' % (info, sorted(map(str, got.columns)), sorted(want.columns))):
        return
    cols = [c for c in want.columns if c != 'name']
    if 'name' in want.columns:
        if not ctx.ok(len(got) == len(want) and list(got['name']) == list(want['name']), key + ':name', '%s: rows %s expected %s' % (info, list(got['name']), list(want['name']))):
            return
    ctx.eq(got[cols].astype(float), want[cols].astype(float), key, info, tol)


def run(ctx, case):
    import pyforecaster.big_data_utils as bdu
    import pyforecaster.formatter as fmod
    df, names, series, shared, idx = data(case, ctx.seed)
    f0, covs = build(case)
    refs = {ret: [reference(case, series, shared, idx, u, covs, ret) for u in names] for ret in (True, False)}
    info = str({k: v for k, v in case.items()})
    keep = df.copy()
    if case['kind'] == 'parallel':
        f, _ = build(case)
        with fakeray.owned([bdu, fmod], case['order'], case['cpus']) as fr:
            x, y = f.transform(df, global_form=True, parallel=True, reduce_memory=False)
        ctx.step(case['ns'])
        compare(ctx, x, pd.concat([r[0] for r in refs[True]]), 'parallel', info, 1e-9)
        ctx.eq(y, pd.concat([r[1] for r in refs[True]]), 'parallel-target', info)
        ctx.ok(not fr.up, 'ray-left-running', info)
        ctx.state(str(case))
        ctx.trace()
        return
    for red in (False, True):
        f, _ = build(case)
        for ret in (True, False, True):
            x, y = f.transform(df, global_form=True, return_target=ret, reduce_memory=red)
            ctx.step(case['ns'])
            tol = 1e-6 if red else 1e-9
            compare(ctx, x, pd.concat([r[0] for r in refs[ret]]), 'stack', '%s reduce=%s targets=%s' % (info, red, ret), tol)
            if ret:
                ctx.eq(y, pd.concat([r[1] for r in refs[True]]), 'stack-target', '%s reduce=%s' % (info, red), tol)
            ctx.state(info, red, ret)
    # re-ordering by correlation
    f, _ = build(case)
    x, y = f.transform(df, global_form=True, reduce_memory=False, corr_reorder=True)
    ctx.step(case['ns'])
    want, wy, F = pd.concat([r[0] for r in refs[True]]), pd.concat([r[1] for r in refs[True]]), refs[True][0][2]
    ctx.eq(y, wy, 'reorder-target', info)
    groups = {}
    for e in F:
        groups.setdefault(e['src'], []).append(e['col'])
    last = {}
    if ctx.ok(list(x['name']) == list(want['name']), 'reorder-rows', info):
        for u in names:
            xu, wu = x[x['name'] == u], want[want['name'] == u]
            yu = wy[(want['name'] == u).values].iloc[:, 0]
            for g, cols in groups.items():
                perms = [p for p in itertools.permutations(cols) if np.array_equal(xu[cols].values, wu[list(p)].values)]
                if not ctx.ok(perms, 'reorder-not-a-permutation', '%s series %s group %s' % (info, u, g)):
                    continue
                last[g] = perms[0]
                cor = [float(np.corrcoef(wu[c], yu)[0, 1]) for c in perms[0]]
                ctx.ok(all(a >= b - 1e-9 for a, b in zip(cor, cor[1:])), 'reorder-by-correlation', '%s series %s group %s correlations %s' % (info, u, g, cor))
            other = [c for c in want.columns if c not in sum(groups.values(), []) and c != 'name']
            ctx.eq(xu[other].astype(float), wu[other].astype(float), 'reorder-other-columns', info)
    xp, _ = f.transform(df, global_form=True, reduce_memory=False, corr_reorder=True, return_target=False)
    ctx.step(case['ns'])
    wp = pd.concat([r[0] for r in refs[False]])
    if case['ns'] == 1 and len(last) == len(groups):
        for g, cols in groups.items():
            ctx.ok(np.array_equal(xp[cols].values, wp[list(last[g])].values), 'reorder-at-prediction', '%s group %s: prediction order differs from training order %s' % (info, g, last[g]))
    ctx.ok(frame_eq(df, keep), 'input-changed', info)
    ctx.trace()
    ctx.outcome(len(x), len(xp), len(groups))
    ctx.sample(case=case, rows=len(x))
