"""C07: step-ahead feature selection and time limits for every small configuration against windows computed by the reference model."""
import itertools
import pandas as pd
from mc import featmodel as fm
from mc.util import frame_eq

PID = 'C07'
PREFORK = True
BOUNDS = dict(quick='6 feature sets x 3 target sets x every target step x {periodic, up_to, none} x periods {2h,4h,24h,5h} x tolerances {0,1h,2h} x '
                    'keep-last lags {0,1,3} x keep-last seconds {0, 2h, 10h} x bypass {none, 2 columns}',
              thorough='10 feature sets x 5 target sets x the same with 7 periods and 4 tolerances, sampling 1h and 30min')
ASSUMPTIONS = ['the first declared target transform defines the steps', 'features kept by "last seconds" are judged from both sides only for the '
               'features that end inside/outside the requested interval']
FSETS = [[dict(functions=None, lags=list(range(6)))],
         [dict(functions=['mean'], agg='2h', lags=[0, 2, 4, 7])],
         [dict(functions=['min', 'max'], agg=3, lags=[0, 1, 2], rel=True), dict(names=['b'], functions=None, lags=[0, 24])],
         [dict(functions=None, lags=[-3, -2, -1, 0, 1])],
         [dict(functions=['mean'], bins=[0, 1, 3, 7], lags=None), dict(names=['b'], functions=None, lags=[2])],
         [dict(names=['a', 'b'], functions=None, lags=[1, 23, 24, 25]), dict(names=['b'], functions=['mean'], agg='2h', lags=[-8, -5, 0])],
         [dict(functions=['sum'], agg='4h', lags=[-4, 0, 4])],
         [dict(functions=['mean'], bins=[0, 4, 24], lags=[0, 1])],
         [dict(functions=None, lags=[0])],
         [dict(names=['b'], functions=['mean', 'std'], agg=6, lags=[0, 1, 3], rel=True)]]
TSETS = [[-1, -2, -3], [-24, -25], [-4], [-1], [-6, -5, -4, -3, -2, -1]]
TAGG = [None, None, 2, '3h', None]


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    return [dict(f=f, t=t, dt=dt, tier=tier) for f in range(6 if q else 10) for t in range(3 if q else 5) for dt in (['1h'] if q else ['1h', '30min'])]


def run(ctx, case):
    from pyforecaster.formatter import Formatter
    dt = pd.Timedelta(case['dt'])
    q = case['tier'] == 'quick'
    f = Formatter(dt=dt)
    n = 60
    df = fm.make_frame(n, ['a', 'b'], case['dt'], seed=ctx.seed)
    data = {c: list(df[c]) for c in df.columns}
    exp = []
    for c in FSETS[case['f']]:
        c = dict(dict(names=['a'], rel=False, nested=True), **c)
        kw = {} if c.get('bins') is None else dict(agg_bins=c['bins'])
        f.add_transform(c['names'], c['functions'], c.get('agg'), c['lags'], c['rel'], **kw)
        exp += fm.columns(c, data, dt)
    agg = TAGG[case['t']]
    tc = dict(names=['a'], functions=None if agg is None else ['mean'], agg=agg, lags=TSETS[case['t']], rel=False)
    f.add_target_transform(tc['names'], tc['functions'], tc['agg'], tc['lags'])
    texp = fm.columns(tc, data, dt)
    # limits before any transform (dry-run on demand) and after
    for when in ('dry', 'after'):
        if when == 'after':
            x, y = f.transform(df)
        for tgt in (False, True):
            if when == 'dry' and tgt:
                continue
            allw = exp + (texp if tgt else [])
            lim = f.get_time_lims(include_target=tgt, extremes=True)
            ctx.step()
            lo, hi = min(-e['mhi'] for e in allw) * dt, max(-e['mlo'] + 1 for e in allw) * dt
            ctx.ok(len(lim) == 1 and lim['start_time'].iloc[0] == lo and lim['end_time'].iloc[0] == hi, 'time-limits',
                   '%s %s include_target=%s: %s, expected %s..%s' % (FSETS[case['f']], when, tgt, lim.values.tolist(), lo, hi))
            lim = f.get_time_lims(include_target=tgt, extremes=False)
            for s in sorted(set(e['src'] for e in allw)):
                lo = min(-e['mhi'] for e in allw if e['src'] == s) * dt
                hi = max(-e['mlo'] + 1 for e in allw if e['src'] == s) * dt
                ctx.ok(s in lim.index and lim.loc[s, 'start_time'] == lo and lim.loc[s, 'end_time'] == hi, 'time-limits-per-signal',
                       '%s %s signal %s include_target=%s' % (FSETS[case['f']], when, s, tgt))
    H = pd.Timedelta('1h')
    periods = ['2h', '4h', '24h', '5h'] + ([] if q else ['1h', '12h', '3h'])
    tols = ['0h', '1h', '2h'] + ([] if q else ['30min'])
    for step, method, per, tol, kl, ks, by in itertools.product(range(len(texp)), ('periodic', 'up_to', 'none'), periods, tols, (0, 1, 3), (0, 7200, 36000),
                                                               ([], ['hour', 'a'])):
        if method != 'periodic' and (per != '2h' or tol != '1h'):
            continue
        before = x.copy() if step == 0 and kl == 0 and ks == 0 else None
        out = f.prune_dataset_at_stepahead(x, step, list(by), method=method, period=per, tol_period=tol, keep_last_n_lags=kl, keep_last_seconds=ks)
        ctx.step()
        if before is not None:
            ctx.ok(frame_eq(x, before), 'input-changed', 'table modified')
        T = texp[step]
        ts, te = -T['mhi'] * dt, (-T['mlo'] + 1) * dt
        P, tolt = pd.Timedelta(per), pd.Timedelta(tol)
        must, may = [], []
        for e in exp:
            s, en = -e['mhi'] * dt, (-e['mlo'] + 1) * dt
            if method == 'periodic':
                k = (ts - s).value % P.value <= tolt.value or (te - en).value % P.value <= tolt.value
            elif method == 'up_to':
                k = en <= te
            else:
                k = True
            if kl > 0 and e['lag'] is not None and 0 <= e['lag'] < kl:
                k = True
            if kl > 0 and e['lag'] is None and e['fun'] is not None and any(c.get('bins') for c in FSETS[case['f']]):
                k = None if not k else True     # bins without lags count as lag 0
            if k:
                must.append(e['col'])
            elif ks > 0 and en <= te and en <= pd.Timedelta(ks, unit='s'):
                (must if en > -pd.Timedelta(ks, unit='s') else may).append(e['col'])
            elif k is None:
                may.append(e['col'])
        got = [c for c in out.columns if c not in by]
        info = 'features=%s target=%s step=%d method=%s period=%s tol=%s keep lags %d seconds %d: ' % (FSETS[case['f']], TSETS[case['t']], step, method, per, tol, kl, ks)
        ctx.ok(len(set(out.columns)) == len(out.columns), 'duplicates', info)
        ctx.ok(set(must) <= set(got), 'lost-feature:' + method, info + 'missing %s' % sorted(set(must) - set(got)))
        ctx.ok(set(got) <= set(must) | set(may), 'extra-feature:' + method, info + 'extra %s' % sorted(set(got) - set(must) - set(may)))
        ctx.ok(all(b in out.columns for b in by), 'bypass', info)
        ctx.ok(out.index.equals(x.index) and all(frame_eq(out[c], x[c]) for c in out.columns), 'values', info)
        ctx.state(str(case), step, method, per, tol, kl, ks, len(by))
        ctx.outcome(tuple(got))
        ctx.trace()
    ctx.sample(config=info, kept=got[:6])
