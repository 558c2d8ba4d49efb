"""C02: metadata truthfulness and non-anticipation: perturb every single raw sample, look at which outputs move."""
import itertools
import numpy as np
import pandas as pd
from mc import featmodel as fm

PID = 'C02'
PREFORK = True
BOUNDS = dict(quick='all C01 feature configurations x every (row, column) raw sample x perturbations {+1e4, -1e4} on a 7-row frame with two sources; '
                    'plus every row of every metadata table',
              thorough='the larger C01 configuration space on 9-row frames, sampling 1h and 15min, and a frame with a missing sample')
ASSUMPTIONS = ['influence is observed through finite perturbations of +-1e4 around distinct values',
               'a column declared without statistic is checked for "no influence outside its window" only']


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    res = []
    for c in fm.config_space(tier):
        for fr in ([dict(n=7, dt='1h', nan=[])] if tier == 'quick' else
                   [dict(n=9, dt='1h', nan=[]), dict(n=8, dt='15min', nan=[]), dict(n=8, dt='1h', nan=[[3, 0]])]):
            res.append(dict(cfg=c, fr=fr))
    return res


def run(ctx, case):
    cfg, fr = case['cfg'], case['fr']
    dt = pd.Timedelta(fr['dt'])
    df = fm.make_frame(fr['n'], ['a', 'b'], fr['dt'], seed=ctx.seed, nan_at=fr['nan'])
    n = len(df)
    tr = fm.transformer(cfg, dt=dt)
    base = tr.transform(df, augment=False)
    ctx.step()
    md = tr.metadata
    exp = fm.columns(cfg, {c: list(df[c]) for c in df.columns}, dt)
    kind = 'bins' if cfg.get('bins') is not None else 'lags'
    # ---- the table itself
    if not ctx.ok(list(md.index) == [e['col'] for e in exp], 'metadata-rows:' + kind,
                  'cfg=%s rows %s expected %s' % (cfg, list(md.index), [e['col'] for e in exp])):
        return
    for e, (_, row) in zip(exp, md.iterrows()):
        want = dict(name=e['src'], start_time=-e['mhi'] * dt, end_time=(-e['mlo'] + 1) * dt,
                    function=e['fun'] or 'none', relative_lags=bool(cfg.get('rel')))
        if kind == 'lags':
            want['lag'] = e['lag']
            if cfg.get('functions'):
                want['spacing_time'] = dt * (e['mhi'] - e['mlo'] + 1) if cfg.get('rel') else dt
        elif not cfg.get('rel'):
            want['lag'] = e['lag'] or 0
        for k, v in want.items():
            got = row[k]
            same = (got is None or got != got) if v is None else pd.Timedelta(got) == v if isinstance(v, pd.Timedelta) else got == v
            ctx.ok(same, 'metadata-%s:%s' % (k, kind), 'cfg=%s column %s: %s is %r, expected %r' % (cfg, e['col'], k, got, v))
    ctx.state(str(cfg), str(fr), 'table')
    # ---- influence
    B = base.values
    for r, c in itertools.product(range(n), range(2)):
        moved = np.zeros(B.shape, bool)
        for delta in ((1e4, -1e4) if set(cfg.get('functions') or []) & {'min', 'max', 'median', 'spread'} else (1e4,)):
            d2 = df.copy()
            d2.iloc[r, c] += delta
            out = fm.transformer(cfg, dt=dt).transform(d2, augment=False).values
            ctx.step()
            moved |= ~((out == B) | (np.isnan(out) & np.isnan(B)))
        ctx.state(str(cfg), str(fr), r, c)
        for j, e in enumerate(exp):
            st, en = md['start_time'].iloc[j], md['end_time'].iloc[j]
            src_ok = md['name'].iloc[j] == df.columns[c]
            for t in range(n):
                rel = (r - t) * dt
                inside = src_ok and st <= rel < en
                if moved[t, j] and not inside:
                    # float dust of incremental rolling statistics is not influence
                    if not real_move(cfg, df, dt, r, c, t, j, B):
                        continue
                    ctx.fail('influence-outside-window:' + kind, 'cfg=%s column %s row %d moved by raw sample (row %d, %s) outside its '
                             'published window [%s, %s)' % (cfg, e['col'], t, r, df.columns[c], st, en))
                elif inside and not moved[t, j] and not np.isnan(B[t, j]) and e['fun'] not in (None, 'median', 'min', 'max', 'std', 'first_minus_twice_last', 'spread'):
                    ctx.fail('window-too-wide:' + kind, 'cfg=%s column %s row %d: raw sample (row %d) in the published window has no '
                             'influence' % (cfg, e['col'], t, r))
                elif moved[t, j] and en <= pd.Timedelta(0) + dt and r > t:
                    ctx.fail('look-ahead:' + kind, 'cfg=%s column %s row %d depends on later row %d' % (cfg, e['col'], t, r))
    ctx.trace()
    ctx.outcome(tuple(moved.sum(0)))
    ctx.sample(cfg=cfg, metadata=[[str(md.index[0]), str(md['start_time'].iloc[0]), str(md['end_time'].iloc[0])]])


def real_move(cfg, df, dt, r, c, t, j, B):
    for delta in (1e4, -1e4):
        d2 = df.copy()
        d2.iloc[r, c] += delta
        v = fm.transformer(cfg, dt=dt).transform(d2, augment=False).values[t, j]
        if (v != v) != (B[t, j] != B[t, j]) or abs(v - B[t, j]) > 1e-3:
            return True
    return False
