"""C01: every engineered value against a one-loop-per-value reference model, over all small configurations."""
import pandas as pd
from mc import featmodel as fm
from mc.util import frame_eq

PID = 'C01'
PREFORK = True
BOUNDS = dict(quick='names<=2, 5 function sets, 4 agg lengths, 8 lag sets, relative on/off, 5 bin sets x 4 lag sets x nested on/off; '
                    'each with 4 data frames (lengths 9/4, one missing sample, 15-min sampling) and dt given/inferred',
              thorough='names<=2, 9 function sets, 10 agg lengths, 16 lag sets, 9 bin sets x 7 lag sets; 9 data frames incl. every '
                       'single missing sample position, irregular index')
ASSUMPTIONS = ['rolling statistics are judged with relative tolerance 1e-9', 'time index regular, missing samples are NaN values '
               '(missing timestamps are explored for un-lagged statistics only)']


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    return [dict(cfg=c, tier=tier) for c in fm.config_space(tier)]


def frames(tier, seed, cfg):
    fr = [dict(n=9, dt='1h', nan=[]), dict(n=9, dt='1h', nan=[[4, 0]]), dict(n=3, dt='1h', nan=[]), dict(n=8, dt='15min', nan=[])]
    if tier == 'thorough':
        fr += [dict(n=7, dt='1h', nan=[[k, 0]]) for k in range(7)] + [dict(n=12, dt='30min', nan=[[2, 1], [8, 0]]), dict(n=1, dt='1h', nan=[])]
    return fr


def run(ctx, case):
    cfg = case['cfg']
    for fr in frames(case['tier'], ctx.seed, cfg):
        for given in (True, False):
            one(ctx, cfg, fr, given)
    if cfg.get('bins') is None and cfg.get('functions') and cfg.get('lags') is None:
        gaps(ctx, cfg)


def one(ctx, cfg, fr, given):
    dt = pd.Timedelta(fr['dt'])
    if not given and fr['n'] < 2:
        return
    if fr['dt'] != '1h' and isinstance(cfg.get('agg'), str) and pd.Timedelta(fm.norm_freq(cfg['agg'])) / dt > 8:
        pass   # window longer than the frame: everything must be missing
    df = fm.make_frame(fr['n'], ['a', 'b', 'c'], fr['dt'], seed=ctx.seed, nan_at=fr['nan'])
    exp = fm.columns(cfg, {c: list(df[c]) for c in df.columns}, dt)
    before = df.copy()
    for augment in (True, False):
        if not augment and not given:
            continue
        tr = fm.transformer(cfg, dt=dt if given else None)
        out = tr.transform(df, augment=augment)
        ctx.step()
        ctx.ok(frame_eq(df, before), 'input-changed', 'the caller frame was modified')
        want = fm.expected(exp, df.index, out)
        if augment:
            want = pd.concat([before, want], axis=1)
        ctx.eq(out, want, 'values:%s' % kind(cfg), 'cfg=%s frame=%s dt given=%s' % (cfg, fr, given))
    ctx.state(str(cfg), str(fr), given)
    ctx.trace()
    ctx.outcome(want.shape, int(want.isna().sum().sum()))
    ctx.sample(cfg=cfg, frame=fr, columns=[e['col'] for e in exp][:4], first=[e['vals'] for e in exp][:1])


def kind(cfg):
    if cfg.get('bins') is not None:
        return 'bins-nested' if cfg['nested'] else 'bins-flat'
    return 'lag' if not cfg.get('functions') else 'agg'


def gaps(ctx, cfg):
    """remove each timestamp in turn: a statistic over a window with a missing timestamp must be missing"""
    dt = pd.Timedelta('1h')
    full = fm.make_frame(9, ['a', 'b'], '1h', seed=ctx.seed)
    for k in range(1, 8):
        df = full.drop(full.index[k])
        data = {c: [float('nan') if i == k else v for i, v in enumerate(full[c])] for c in full.columns}
        exp = fm.columns(cfg, data, dt)
        want = pd.DataFrame({e['col']: e['vals'] for e in exp}, index=full.index).drop(full.index[k])
        tr = fm.transformer(cfg, dt=dt)
        out = tr.transform(df, augment=False)
        ctx.step()
        ctx.trace()
        ctx.state(str(cfg), 'gap', k)
        ctx.eq(out, want, 'gap', 'cfg=%s missing timestamp %d' % (cfg, k))
