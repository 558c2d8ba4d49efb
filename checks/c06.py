"""C06: every fold of every small cross-validation configuration, each row judged with exact rational time arithmetic."""
import itertools
from fractions import Fraction
import numpy as np
import pandas as pd
from mc import featmodel as fm

PID = 'C06'
PREFORK = True
BOUNDS = dict(quick='lengths {8,9,13,20,25,31} x folds 2..5 x multipliers 1..3 x 7 feature sets x {regular, gappy, localized} index x '
                    '{after transform, dry-run on demand}; every row of every fold',
              thorough='lengths 6..40 x folds 2..8 x multipliers 1..4 x 9 feature sets x 4 index kinds')
ASSUMPTIONS = ['the deadband is the largest absolute start offset of the published feature windows (targets are not features)']
FS = [[dict(functions=None, lags=[0])], [dict(functions=None, lags=[0, 1])], [dict(functions=['mean'], agg=3, lags=[0])],
      [dict(functions=None, lags=[1]), dict(functions=['max'], agg='2h', lags=[2], names=['b'])],
      [dict(functions=None, lags=[-2, 0])], [dict(functions=['mean'], agg=2, lags=[0, 1], rel=True)],
      [dict(functions=['mean'], bins=[0, 1, 4], lags=None)],
      [dict(functions=None, lags=[5])], [dict(functions=['min'], bins=[1, 3], lags=[0, 1])]]


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for n in ([8, 9, 13, 20, 25, 31] if q else range(6, 41)):
        for fs in range(7 if q else 9):
            for kind in ['regular', 'gappy', 'local'] + ([] if q else ['fine']):
                res.append(dict(n=n, fs=fs, kind=kind, kmax=5 if q else 8, mmax=3 if q else 4))
    return res


def index(kind, n):
    if kind == 'local':
        return pd.date_range('2021-10-30 12:00', periods=n, freq='1h', tz='Europe/Zurich')
    if kind == 'fine':
        return pd.date_range('2021-10-30 12:00', periods=n, freq='1h')
    idx = pd.date_range('2021-03-05 07:00', periods=n, freq='1h')
    if kind == 'gappy':
        idx = idx.delete([k for k in (2, 5, 6, n - 3) if 0 < k < n - 1])
    return idx


def build(fs, te):
    from pyforecaster.formatter import Formatter
    f = Formatter(dt=pd.Timedelta('1h'))
    for c in fs:
        kw = {} if c.get('bins') is None else dict(agg_bins=c['bins'])
        f.add_transform(c.get('names', ['a']), c['functions'], c.get('agg'), c['lags'], c.get('rel', False), **kw)
    f.add_target_transform(['a'], lags=[-7])
    return f


def deadband(fs):
    dt = pd.Timedelta('1h')
    w = []
    for c in fs:
        c = dict(dict(names=['a'], rel=False, nested=True), **c)
        w += [abs(-e['mhi']) for e in fm.columns(c, {n: [0.0] for n in c['names']}, dt)]
    return max(w) * dt.value


def run(ctx, case):
    idx = index(case['kind'], case['n'])
    fs = FS[case['fs']]
    db = deadband(fs)
    df = pd.DataFrame({'a': np.arange(len(idx)) + 0.5, 'b': np.arange(len(idx)) * 2.0}, index=idx)
    ts = [t.value for t in idx]
    ts = [int(t) for t in ts]
    for k, m, how in itertools.product(range(2, case['kmax'] + 1), range(1, case['mmax'] + 1), ('after', 'demand')):
        f = build(fs, None)
        if how == 'after':
            getattr(f, "_simulate_transform", lambda d: f.transform(d, time_features=False))(df) if len(idx) < 14 else f.transform(df)
            folds = f.time_kfcv(idx, k, m)
        else:
            folds = f.time_kfcv(idx, n_k=k, multiplier_factor=m, x=df)
        span = ts[-1] - ts[0]
        win = Fraction(span, k - 1)
        step = Fraction(span) - win
        step = step / (k * m - 1) if k * m > 1 else Fraction(0)
        info = 'n=%d k=%d mult=%d features=%s index=%s' % (case['n'], k, m, fs, case['kind'])
        try:
            got = list(folds)
            refused = False
        except Exception as e:
            got, refused = [], True
        ctx.step()
        ctx.state(str(case), k, m, how)
        ctx.trace()
        if not ctx.ok(refused == (db > win), 'refusal', '%s: deadband %s h, fold %s h, refused=%s' % (info, db / 36e11, float(win) / 36e11, refused)):
            continue
        if refused:
            ctx.count('refused')
            continue
        if not ctx.ok(len(got) == k * m, 'number-of-folds', '%s: %d folds' % (info, len(got))):
            continue
        cover = np.zeros(len(idx), bool)
        exact = win.denominator == 1 and step.denominator == 1
        eps = 0 if exact else 20
        for i, (tr, te) in enumerate(got):
            tr, te = np.asarray(tr), np.asarray(te)
            if not ctx.ok(tr.shape == te.shape == (len(idx),), 'mask-shape', info):
                break
            a = ts[0] + i * step
            b = a + win
            cover |= te
            ctx.ok(not (tr & te).any(), 'overlap', info + ' fold %d' % i)
            for r, t in enumerate(ts):
                if min(abs(t - a), abs(t - b)) <= eps and eps or min(abs(t - a + db), abs(t - b - db)) <= eps and eps:
                    continue
                wte = a <= t <= b
                wtr = t < a - db or t > b + db
                if bool(te[r]) != wte:
                    ctx.fail('test-rows', '%s fold %d row %d in test: %s, expected %s' % (info, i, r, te[r], wte))
                    break
                if bool(tr[r]) != wtr:
                    ctx.fail('train-rows', '%s fold %d row %d in train: %s, expected %s' % (info, i, r, tr[r], wtr))
                    break
            ctx.count('folds')
        ctx.ok(cover.all(), 'coverage', '%s: rows never tested: %s' % (info, np.where(~cover)[0]))
        ctx.outcome(k, m, int(tr.sum()), int(te.sum()))
    ctx.sample(config=info, train=''.join('x.'[int(not v)] for v in (got[0][0] if got else [])), test=''.join('x.'[int(not v)] for v in (got[0][1] if got else [])))
