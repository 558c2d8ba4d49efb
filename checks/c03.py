"""C03: which rows survive, and that features and targets of a row belong together."""
import itertools
import numpy as np
import pandas as pd
from mc import featmodel as fm
from mc.util import frame_eq

PID = 'C03'
PREFORK = True
BOUNDS = dict(quick='feature sets of <=2 of 7 transforms x 5 target sets x augment x target requested x 4 missing-sample patterns x lengths 9/5; '
                    'time features on/off; 2 target normalizers with and without expression; serial and threaded evaluation',
              thorough='feature sets of <=3 of 8 transforms x 6 target sets x every single missing sample position x lengths 3..10')
ASSUMPTIONS = ['regular time index; missing samples are NaN']

FEATS = [dict(names=['a'], functions=None, agg=None, lags=[0, 1], rel=False),
         dict(names=['b'], functions=['mean'], agg='2h', lags=[1], rel=False),
         dict(names=['a'], functions=['min', 'max'], bins=[0, 2], lags=None, nested=True, rel=False),
         dict(names=['c'], functions=None, agg=None, lags=[-1], rel=False),
         dict(names=['b'], functions=['mean'], agg='3h', lags=None, rel=False),
         dict(names=['a', 'b'], functions=['max'], agg=2, lags=[1, 2], rel=True),
         dict(names=['c'], functions=['sum'], bins=[1, 3], lags=None, nested=False, rel=False),
         dict(names=['c'], functions=['std'], agg='2h', lags=[-2], rel=False)]
TARGS = [[], [dict(names=['a'], functions=None, agg=None, lags=[-1], rel=False)],
         [dict(names=['a'], functions=None, agg=None, lags=[-2, -1], rel=False)],
         [dict(names=['a'], functions=['mean'], agg='2h', lags=[-3], rel=False)],
         [dict(names=['a'], functions=None, agg=None, lags=[-1], rel=False), dict(names=['b'], functions=None, agg=None, lags=[-1, -3], rel=False)],
         [dict(names=['a'], functions=None, agg=None, lags=[0], rel=False)]]

# columns the targets are normalised with: they are engineered columns as well
NORMS = [None, dict(names=['a'], functions=['mean'], agg='5h', lags=None, rel=False), dict(names=['a'], functions=None, agg=None, lags=[4], rel=False)]


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    nf = 7 if tier == 'quick' else 8
    res = []
    for k in range(0, 3 if tier == 'quick' else 4):
        for fs in itertools.combinations(range(nf), k):
            for t in range(5 if tier == 'quick' else 6):
                res.append(dict(f=list(fs), t=t, tier=tier))
                if k <= 1 and 0 < t < 4:
                    for norm in (1, 2):
                        for fun in (False, True):
                            res.append(dict(f=list(fs), t=t, tier=tier, norm=norm, fun=fun))
    return res


def run(ctx, case):
    if case['tier'] == 'quick':
        frames = [(9, []), (9, [[4, 0]]), (9, [[8, 1]]), (5, []), (8, [[0, 2], [3, 1]])]
    else:
        frames = [(n, []) for n in range(3, 11)] + [(9, [[r, c]]) for r in range(9) for c in range(3)]
    for n, nan in frames:
        for augment, ret, tf in itertools.product((True, False), (True, False), (True, False)):
            one(ctx, case, n, nan, augment, ret, tf)
    if case['f']:
        for n, nan in frames[:2]:
            one(ctx, case, n, nan, True, True, False, threaded=True)


def one(ctx, case, n, nan, augment, ret, tf, threaded=False):
    from pyforecaster.formatter import Formatter
    df = fm.make_frame(n, ['a', 'b', 'c'], '1h', seed=ctx.seed, nan_at=nan)
    before = df.copy()
    dt = pd.Timedelta('1h')
    data = {c: list(df[c]) for c in df.columns}
    f = Formatter(augment=augment, dt=dt, n_parallel=2)
    fe, te = [], []
    for i in case['f']:
        cfg = FEATS[i]
        kw = {} if cfg.get('bins') is None else dict(agg_bins=cfg['bins'], nested=cfg['nested'])
        f.add_transform(cfg['names'], fm.real_functions(cfg['functions']), cfg.get('agg'), cfg['lags'], cfg['rel'], **kw)
        fe += fm.columns(cfg, data, dt)
    for cfg in TARGS[case['t']]:
        f.add_target_transform(cfg['names'], fm.real_functions(cfg['functions']), cfg.get('agg'), cfg['lags'], cfg['rel'])
        te += fm.columns(cfg, data, dt)
    if case.get('norm'):
        cfg = NORMS[case['norm']]
        f.add_target_normalizer(cfg['names'], fm.real_functions(cfg['functions']), cfg.get('agg'), cfg['lags'], cfg['rel'], name='nm')
        nm = fm.columns(cfg, data, dt)[0]
        if case['fun']:
            f.add_normalizing_fun("(df[t] - df['nm'])", "(df[t] + df['nm'])")
            for e in fe + te:
                if e['src'] == 'a':
                    e['vals'] = [v - k for v, k in zip(e['vals'], nm['vals'])]
        fe.append(dict(nm, col='nm'))
    complete = [not any(e['vals'][t] != e['vals'][t] for e in fe) and not (ret and any(e['vals'][t] != e['vals'][t] for e in te)) for t in range(n)]
    if tf and (not any(complete) or (not augment and not fe)):
        tf = False       # calendar features of an empty table are not specified
    if threaded:
        x, y = getattr(f, "_transform", f.transform)(df, time_features=tf, return_target=ret, parallel=True)
    else:
        x, y = f.transform(df, time_features=tf, return_target=ret)
    ctx.step()
    tag = 'targets' if ret else 'prediction'
    info = 'features=%s targets=%s normalizer=%s n=%d missing=%s augment=%s' % ([FEATS[i] for i in case['f']], TARGS[case['t']], case.get('norm') and (NORMS[case['norm']], case['fun']), n, nan, augment)
    ctx.ok(frame_eq(df, before), 'input-changed', info)
    X = pd.DataFrame({e['col']: e['vals'] for e in fe}, index=df.index)
    Y = pd.DataFrame({e['col']: e['vals'] for e in te}, index=df.index)
    keep = [not any(e['vals'][t] != e['vals'][t] for e in fe) and not (ret and any(e['vals'][t] != e['vals'][t] for e in te)) for t in range(n)]
    # flat bins may drop additional rows (they need the whole span): rows there are judged one-sided
    may = [any(e['maynan'][t] for e in fe) for t in range(n)]
    got_rows = set(x.index)
    keep = [k and not (m and df.index[t] not in got_rows) for t, (k, m) in enumerate(zip(keep, may))]
    want = X.loc[keep]
    if augment:
        want = pd.concat([before.loc[keep], want], axis=1)
    if tf:
        want = want.assign(hour=want.index.hour, dayofweek=want.index.dayofweek, minuteofday=want.index.hour * 60 + want.index.minute)
    ctx.eq(x, want, 'features:' + tag, info)
    if ret:
        ctx.ok(x.index.equals(y.index), 'index-mismatch', info)
        ctx.eq(y, Y.loc[keep], 'target:' + tag, info)
    ctx.state(str(case), n, str(nan), augment, ret, tf, threaded)
    ctx.trace()
    ctx.outcome(tuple(keep), x.shape[1])
    ctx.sample(config=info, kept_rows=[i for i, k in enumerate(keep) if k])
