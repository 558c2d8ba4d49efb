"""C05: calendar and holiday features of every row of DST/year-end windows against zoneinfo/calendar facts, all call histories."""
import datetime as dtm
import itertools
from zoneinfo import ZoneInfo
import numpy as np
import pandas as pd
from mc.util import frame_eq

PID = 'C05'
PREFORK = True
BOUNDS = dict(quick='7 zones x 3 sampling rates x 5 windows around DST changes and year end (every row); all histories of <=3 transforms over '
                    '{naive, 2 zones}; holidays: 4 countries x every day of 3 years, and a 12-day window starting at every day of one year',
              thorough='9 zones x 5 sampling rates x 9 windows; histories <=4 over {naive, 3 zones}; 7 countries x 12 years; windows of 5/12/40 days '
                       'starting at every day of two years')
ASSUMPTIONS = ['the holidays package is the authority on official holidays', 'bridge/long-weekend codes of days within 3 days of the frame border are '
               'judged one-sidedly (the frame cannot know the neighbouring calendar)']
ZONES = ['Europe/Zurich', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'UTC', 'Pacific/Auckland', None, 'Asia/Kathmandu', 'America/St_Johns']
WINDOWS = ['2021-03-27', '2021-10-30', '2021-12-30', '2021-03-13', '2021-11-06', '2021-04-03', '2021-09-25', '2020-02-28', '2021-10-02']


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for z in ZONES[:7 if q else 9]:
        for f in (['1h', '15min', '1D'] if q else ['1h', '15min', '30min', '10min', '1D']):
            for w in WINDOWS[:5 if q else 9]:
                res.append(dict(kind='rows', zone=z, freq=f, start=w))
    al = ['naive', 'Europe/Zurich', 'Asia/Kolkata'] + ([] if q else ['America/New_York'])
    for d in range(1, 4 if q else 5):
        for s in itertools.product(al, repeat=d):
            res.append(dict(kind='history', seq=list(s)))
    cs = [['CH', None], ['CH', 'ZH'], ['IT', None], ['US', None]] + ([] if q else [['DE', 'BY'], ['FR', None], ['GB', None]])
    for c in cs:
        for y in (range(2020, 2023) if q else range(2014, 2026)):
            res.append(dict(kind='year', country=c, year=y))
    for c in cs[1:3] if q else cs:
        for y in ([2021] if q else [2021, 2024]):
            for L in ([12] if q else [5, 12, 40]):
                for m in range(1, 13):
                    res.append(dict(kind='windows', country=c, year=y, month=m, length=L))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def frame(start, n, freq, zone, seed=0):
    if zone in (None, 'naive'):
        idx = pd.date_range(start, periods=n, freq=freq)
    else:   # build in UTC from the local midnight: unambiguous
        t0 = dtm.datetime.fromisoformat(start).replace(tzinfo=ZoneInfo(zone)).astimezone(dtm.timezone.utc)
        step = pd.Timedelta(freq)
        idx = pd.DatetimeIndex([pd.Timestamp(t0) + k * step for k in range(n)]).tz_convert(zone)
    return pd.DataFrame({'a': np.arange(n) * 1.5 + seed}, index=idx)


def facts(ts):
    """local wall clock facts from the POSIX time, via zoneinfo only"""
    if ts.tz is None:
        t = dtm.datetime(1970, 1, 1) + dtm.timedelta(seconds=ts.value // 10 ** 9)
        off = None
    else:
        t = dtm.datetime.fromtimestamp(ts.value // 10 ** 9, ZoneInfo(str(ts.tz)))
        off = t.utcoffset().total_seconds() / 3600
    return t.hour, t.weekday(), t.hour * 60 + t.minute, off


def judge(ctx, df, out, cols, key, info, zero_offset=False):
    have = [c for c in ('hour', 'dayofweek', 'minuteofday', 'utc_offset') if c in out.columns]
    ctx.ok(have == cols, key + ':columns', '%s: calendar columns %s, expected %s' % (info, have, cols))
    if not ctx.ok(out.index.equals(df.index), key + ':index', info):
        return
    for i, ts in enumerate(df.index):
        f = facts(ts)
        want = dict(zip(('hour', 'dayofweek', 'minuteofday', 'utc_offset'), f))
        if zero_offset or want['utc_offset'] is None:
            want['utc_offset'] = 0
        for c in have:
            if out[c].iloc[i] != want[c]:
                ctx.fail(key + ':' + c, '%s row %s: %s=%r, expected %r' % (info, ts, c, out[c].iloc[i], want[c]))
                return


def rows(ctx, case):
    from pyforecaster.formatter import Formatter
    freq = case['freq']
    n = dict([('1h', 96), ('15min', 300), ('30min', 180), ('10min', 450), ('1D', 30)])[freq]
    df = frame(case['start'], n, freq, case['zone'], ctx.seed)
    keep = df.copy()
    for ret in (True, False):
        f = Formatter(dt=pd.Timedelta(freq))
        f.add_transform(['a'], lags=[0])
        f.add_target_transform(['a'], lags=[0])
        x, y = f.transform(df, return_target=ret)
        ctx.step()
        judge(ctx, df, x, ['hour', 'dayofweek', 'minuteofday'] + ([] if case['zone'] is None else ['utc_offset']), 'rows', str(case))
        ctx.eq(x['a_lag_000'].values, df['a'].values, 'rows:values', str(case))
    ctx.ok(frame_eq(df, keep), 'input-changed', str(case))
    ctx.state(str(case))
    ctx.trace()
    ctx.count('rows_judged', 2 * n)
    ctx.outcome(case['zone'], tuple(sorted(set(map(str, x.get('utc_offset', pd.Series([0])).values)))))


def history(ctx, case):
    from pyforecaster.formatter import Formatter
    seq = case['seq']
    f = Formatter(dt=pd.Timedelta('1h'))
    f.add_transform(['a'], lags=[0, 1])
    f.add_target_transform(['a'], lags=[-1])
    local = seq[0] != 'naive'
    for k, z in enumerate(seq):
        df = frame('2021-10-30', 50 + k, '1h', z, ctx.seed + k)
        x, _ = f.transform(df, return_target=k == 0)
        ctx.step()
        cols = ['hour', 'dayofweek', 'minuteofday'] + (['utc_offset'] if local else [])
        judge(ctx, df.iloc[1:-1] if k == 0 else df.iloc[1:], x, cols, 'history', str(seq), zero_offset=(z == 'naive'))
        ctx.state('history', tuple(seq[:k + 1]))
    ctx.trace()
    ctx.sample(history=seq, columns=cols)


_cal = {}


def calendar(country, year):
    import holidays
    k = (tuple(country), year)
    if k not in _cal:
        kw = {} if country[1] is None else dict(subdiv=country[1])
        _cal[k] = set(holidays.country_holidays(country[0], years=[year], **kw).keys())
    return _cal[k]


def codes(country, days, official_years):
    """reference: code of each day of a run of calendar days"""
    one = dtm.timedelta(days=1)
    lo, hi = days[0] - 12 * one, days[-1] + 12 * one
    span = [lo + k * one for k in range((hi - lo).days + 1)]
    hol = set()
    for y in range(lo.year, hi.year + 1):
        hol |= calendar(country, y)
    off = [d in hol or d.weekday() >= 5 for d in span]
    bridge = [not off[i] and 0 < i < len(span) - 1 and off[i - 1] and off[i + 1] for i in range(len(span))]
    vac = [a or b for a, b in zip(off, bridge)]
    res = {}
    for i, d in enumerate(span):
        if d in hol:
            c = 3
        elif vac[i]:
            a = i
            while a > 0 and vac[a - 1]:
                a -= 1
            b = i
            while b < len(span) - 1 and vac[b + 1]:
                b += 1
            c = 2 if b - a + 1 > 2 else (1 if bridge[i] else 0)
        else:
            c = 0
        res[d] = c
    return res


def hol_judge(ctx, case, first, n, freq='6h', zone=None):
    from pyforecaster.formatter import Formatter
    per = 4 if freq == '6h' else 1
    df = frame(first.isoformat(), n * per, freq, zone, ctx.seed)
    f = Formatter(dt=pd.Timedelta(freq))
    f.add_transform(['a'], lags=[0])
    kw = {} if case['country'][1] is None else dict(subdiv=case['country'][1])
    x, _ = f.transform(df, time_features=False, holidays=True, return_target=False, state_code=case['country'][0], **kw)
    ctx.step()
    days = [first + dtm.timedelta(days=k) for k in range(n)]
    want = codes(case['country'], days, None)
    for i, ts in enumerate(df.index):
        d = ts.date()
        got = x['holidays'].iloc[i]
        border = (d - days[0]).days < 3 or (days[-1] - d).days < 3
        # the calendar of a neighbouring year is not consulted by a frame that does not touch it
        border |= d + dtm.timedelta(days=4) > dtm.date(days[-1].year, 12, 31) or d - dtm.timedelta(days=4) < dtm.date(days[0].year, 1, 1)
        w = want[d]
        if border:
            nonwork = d.weekday() >= 5
            good = (got == 3) == (w == 3) and (got in (0, 1, 2, 3)) and (got == 0 or w > 0 or near_off(case['country'], d))
        else:
            good = got == w
        if not ctx.ok(good, 'holidays:' + ('border' if border else 'code'), '%s %s: code %r, expected %r' % (case, ts, got, w)):
            return
    ctx.count('days_judged', n)


def near_off(country, d):
    return any((d + dtm.timedelta(days=k)) in calendar(country, (d + dtm.timedelta(days=k)).year) or (d + dtm.timedelta(days=k)).weekday() >= 5 for k in (-1, 0, 1))


def year(ctx, case):
    hol_judge(ctx, case, dtm.date(case['year'], 1, 1), 365)
    hol_judge(ctx, case, dtm.date(case['year'], 1, 1), 365, '1D', 'Europe/Zurich')
    ctx.state(str(case))
    ctx.trace()


def windows(ctx, case):
    d = dtm.date(case['year'], case['month'], 1)
    while d.month == case['month']:
        hol_judge(ctx, case, d, case['length'])
        ctx.state(str(case), d.isoformat())
        ctx.trace()
        d += dtm.timedelta(days=1)
