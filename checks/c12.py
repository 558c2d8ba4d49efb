"""C12: categorical encoding: every history of fits and predictions over small categorical tables."""
import itertools
import numpy as np
import pandas as pd

PID = 'C12'
PREFORK = True
BOUNDS = dict(quick='training columns: every word of length 3 over 3 values (x 4 dtypes); prediction words: every word of length 1..3 over 4 values, after every other prediction; '
                    'refits: every pair of training value sets; 2 categorical columns; training and test tables of 1..2 categorical columns (every word of length 3 over 3 values, 3 types) encoded by an encoder; linear and forest forecasters against one trained on any injective numbering',
              thorough='words of length 4, three successive predictions, three successive fits')
ASSUMPTIONS = ['values are compared by their text', 'which numbers are used is free as long as the numbering is injective and constant until the next fit']
VALS = ['b', 'a', '10', '9']


def setup():
    import lightgbm  # noqa
    import pyforecaster.forecaster, pyforecaster.forecasting_models.randomforests  # noqa


def words(alphabet, n):
    return [list(w) for w in itertools.product(alphabet, repeat=n)]


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for w in words(VALS[:3], 3 if q else 4):
        for dt in ('object', 'category', 'mixed', 'catorder'):
            res.append(dict(kind='hist', w=w, dt=dt, depth=2 if q else 3))
    sets = [list(s) for k in (1, 2, 3) for s in itertools.combinations(VALS, k)]
    for ss in itertools.product(sets, repeat=2 if q else 3):
        res.append(dict(kind='refit', sets=list(ss)))
    for w1 in words('pq', 2):
        for w2 in words('xyz', 2):
            res.append(dict(kind='twocols', w1=w1, w2=w2))
    for fc in ('lin', 'ridge', 'qrf0', 'qrf1'):
        for order in itertools.permutations(range(3)):
            res.append(dict(kind='real', fc=fc, order=list(order)))
    res.append(dict(kind='plain'))
    for w in words('xyz', 3 if q else 4):
        for dt in ('object', 'category', 'number'):
            for names in (['a'], ['a', 'b'], ['b', 'a'], None):
                res.append(dict(kind='table', w=w, dt=dt, names=names))
    return res


class CodeEncoder:
    """stand-in for an encoder class: the code of a value is the mean of the target over the training rows with it, per column"""
    def __init__(self, cols):
        self.cols = list(cols)

    def fit(self, x, y):
        self.codes = {c: pd.Series(np.asarray(y, float)).groupby(np.asarray(x[c].astype(str))).mean() for c in self.cols}
        return self

    def transform(self, x):
        return pd.DataFrame({c: [self.codes[c].get(v, -1.0) for v in x[c].astype(str)] for c in self.cols}, index=x.index)


def table(ctx, case):
    """categorical columns of a training and a test table encoded by a given encoder"""
    from pyforecaster.formatter import Formatter
    w, names = case['w'], case['names']
    conv = dict(object=lambda v: list(v), category=lambda v: pd.Categorical(list(v)), number=lambda v: [ord(c) for c in v])[case['dt']]
    n = len(w)
    target = [2.0 ** k for k in range(n)]

    def frame(word, start):
        d = pd.DataFrame({'a': conv(word), 'b': conv(word[::-1]), 'k': np.arange(len(word)) * 0.5 + start}, index=np.arange(len(word)) + start)
        if names is None:                                            # categorical columns are found by their number of values
            d = pd.concat([d] * 13, ignore_index=True)
            d['k'] = np.arange(len(d)) * 0.5
            d.index = np.arange(len(d)) + start
        return d
    train = frame(w, 0)
    train['t'] = (target * 13)[:len(train)] if names is not None else [2.0 ** (i % n) + 1e-3 * i for i in range(len(train))]
    tr0 = train.copy()
    cols = names if names is not None else ['a', 'b']
    for wt in itertools.chain(words('xyz', 1), words('xyz', 2), [list('zyx'), list('xyzzy')]):
        test = frame(wt, 100)
        test['t'] = 0.0
        te0 = test.copy()
        tr, te = Formatter().cat_encoding(train.copy(), test.copy(), 't', CodeEncoder, None if names is None else list(names))
        ctx.step()
        ctx.state('table', ''.join(w), ''.join(wt), case['dt'], str(names))
        info = '%s test %s' % (case, wt)
        for c in cols:
            code = pd.Series(tr0['t'].values).groupby(np.asarray(tr0[c].astype(str))).mean()
            for new, old, what in ((tr, tr0, 'train'), (te, te0, 'test')):
                ctx.ok(len(new) == len(old) and list(new.index) == list(old.index), 'table:rows', info)
                ctx.ok(list(new[c].astype(str)) == list(old[c].astype(str)), 'table:values', '%s: column %s of the %s table holds %s' % (info, c, what, list(new[c].astype(str))[:5]))
                ctx.eq(np.asarray(new[c + '_cb'], float), [code.get(v, -1.0) for v in old[c].astype(str)], 'table:code', '%s: %s of the %s table' % (info, c, what), tol=1e-12)
        ctx.eq(np.asarray(te['k'], float), te0['k'].values, 'table:other', info)
    ctx.trace()


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def recorder():
    from pyforecaster.forecaster import ScenarioGenerator, encode_categorical

    class Rec(ScenarioGenerator):
        log = None

        @encode_categorical
        def fit(self, x, y):
            self.log = [('fit', x.copy())]
            # as real forecasters do: predict on (already encoded) training rows while fitting
            self.predict(x)
            self.log.pop()
            return self

        @encode_categorical
        def predict(self, x, **kw):
            self.log.append(('predict', x.copy()))
            return x
    return Rec()


def frame(word, dt, name='c', extra=True):
    ix = pd.date_range('2021-01-01', periods=len(word), freq='1h')
    vals = list(word)
    if dt == 'mixed':
        vals = [int(v) if v.isdigit() else v for v in vals]
        s = pd.Series(vals, index=ix, dtype=object)
    elif dt == 'category':
        s = pd.Series(pd.Categorical(vals), index=ix)
    elif dt == 'catorder':
        s = pd.Series(pd.Categorical(vals, categories=VALS[::-1], ordered=True), index=ix)
    else:
        s = pd.Series(vals, index=ix, dtype=object)
    df = pd.DataFrame({name: s})
    if extra:
        df['num'] = np.arange(len(vals)) * 1.5
        df['int'] = np.arange(len(vals))
        df['flag'] = [i % 2 == 0 for i in range(len(vals))]
    return df


def numbers(ctx, enc, df, col, key):
    e = enc[col]
    if not ctx.ok(len(e) == len(df) and (pd.api.types.is_numeric_dtype(e.dtype) or all(isinstance(v, (int, float, np.number)) for v in e)), key + ':numeric', 'column %s became %s' % (col, list(e))):
        return None
    return [float(v) for v in e]


def others(ctx, enc, df, col, key):
    ctx.ok(list(enc.columns) == list(df.columns) and enc.index.equals(df.index), key + ':labels')
    for c in df.columns:
        if c not in (col if isinstance(col, (list, tuple)) else [col]):
            ctx.ok(enc[c].equals(df[c]) and enc[c].dtype == df[c].dtype, key + ':others', 'column %s changed' % c)


def check_predict(ctx, f, code, df, col, key, info):
    """judges one prediction; code: text -> number"""
    before = df.copy()
    unseen = set(df[col].astype(str)) - set(code)
    f.log = []
    try:
        f.predict(df)
        enc = f.log[-1][1]
        ctx.step()
    except ValueError:
        ctx.step()
        ctx.ok(bool(unseen), key + ':rejected', '%s: values %s were rejected' % (info, list(before[col])))
        ctx.ok(df.equals(before) and list(df.dtypes) == list(before.dtypes), key + ':input', "%s: caller's table changed by a rejected prediction" % info)
        return
    if not ctx.ok(not unseen, key + ':unseen', '%s: unseen values %s were encoded as %s' % (info, unseen, list(enc[col]))):
        return
    got = numbers(ctx, enc, df, col, key)
    exp = [code[str(v)] for v in before[col]]
    ctx.ok(got == exp, key + ':code', '%s: values %s encoded as %s, at training %s' % (info, list(before[col]), got, exp))
    others(ctx, enc, before, col, key)
    ctx.ok(df.equals(before) and list(df.dtypes) == list(before.dtypes), key + ':input', "%s: caller's table was changed to %s" % (info, df[col].tolist()))


def train(ctx, f, df, col, key, info):
    before = df.copy()
    f.fit(df, None)
    ctx.step()
    enc = f.log[0][1]
    got = numbers(ctx, enc, before, col, key)
    if got is None:
        return None
    code = {}
    for v, g in zip(before[col].astype(str), got):
        ctx.ok(code.setdefault(v, g) == g, key + ':train-consistent', '%s: value %s has two numbers' % (info, v))
    ctx.ok(len(set(code.values())) == len(code), key + ':train-injective', '%s: %s' % (info, code))
    others(ctx, enc, before, col, key)
    ctx.ok(df.equals(before) and list(df.dtypes) == list(before.dtypes), key + ':input', "%s: caller's table was changed by fit to %s" % (info, df[col].tolist()))
    return code


def hist(ctx, case):
    from mc.util import sequences
    import copy
    dt = case['dt']
    f = recorder()
    code = train(ctx, f, frame(case['w'], dt), 'c', 'hist', str(case))
    if code is None:
        return
    preds = [w for k in (1, 2, 3) for w in words(VALS, k)]
    # every prediction word, each after an arbitrary other one: the encoder state must not move
    for w in preds:
        for dt2 in ('object', 'category', 'mixed'):
            check_predict(ctx, f, code, frame(w, dt2), 'c', 'hist', '%s predict %s' % (case, w))
            ctx.state(tuple(case['w']), dt, tuple(w), dt2)
    short = [w for k in (1, 2) for w in words(VALS[:2] + ['9'], k)]
    for seq in itertools.product(short, repeat=case['depth']):
        g = copy.deepcopy(f)
        for w in seq:
            check_predict(ctx, g, code, frame(w, 'object'), 'c', 'hist', '%s sequence %s' % (case, seq))
        ctx.trace()


def refit(ctx, case):
    f = recorder()
    for s in case['sets']:
        try:
            code = train(ctx, f, frame(s + s[:1], 'object'), 'c', 'refit', str(case))
        except ValueError as e:
            ctx.fail('refit:rejected', '%s: fitting again with new values is refused: %s' % (case, e))
            return
        if code is None:
            return
        for w in [[v] for v in VALS] + [s[::-1]]:
            check_predict(ctx, f, code, frame(w, 'object'), 'c', 'refit', '%s predict %s' % (case, w))
        ctx.state('refit', tuple(map(tuple, case['sets'])), tuple(s))
    ctx.trace()


def twocols(ctx, case):
    f = recorder()
    df = frame(case['w1'], 'object', 'c1')
    df['c2'] = frame(case['w2'], 'category', 'c2', extra=False)['c2'].values
    d0 = df.copy()
    f.fit(df, None)
    enc = f.log[0][1]
    codes = {}
    for c in ('c1', 'c2'):
        codes[c] = dict(zip(d0[c].astype(str), [float(v) for v in enc[c]]))
        ctx.ok(len(set(codes[c].values())) == len(codes[c]), 'twocols:injective')
    others(ctx, enc, d0, ['c1', 'c2'], 'twocols')
    ctx.ok(df.equals(d0), 'twocols:input', "caller's table changed by fit")
    for a, b in itertools.product('pqx', 'xyzp'):
        q = frame([a], 'object', 'c1')
        q['c2'] = pd.Categorical([b])
        f.log = []
        ok = a in codes['c1'] and b in codes['c2']
        ctx.state('two', tuple(case['w1']), tuple(case['w2']), a, b)
        ctx.step()
        try:
            f.predict(q)
        except ValueError:
            ctx.ok(not ok, 'twocols:rejected')
            continue
        if ctx.ok(ok, 'twocols:unseen', 'unseen pair (%s,%s) was encoded' % (a, b)):
            e = f.log[-1][1]
            ctx.ok(float(e['c1'].iloc[0]) == codes['c1'][a] and float(e['c2'].iloc[0]) == codes['c2'][b], 'twocols:code')
    ctx.trace()


def real(ctx, case):
    """forecaster trained on text = forecaster trained on the same numbers; prediction order, subsets and repetitions do not matter"""
    from mc import fcmodel as fm
    fc, order = case['fc'], case['order']
    names = ['z', 'm', 'k']
    x, y = fm.data(48, 2, seed=21)
    lab = [names[order[i % 3]] for i in range(48)]
    xt = x.copy()
    xt['cat'] = lab
    y = y + np.array([[3.0 * names.index(v), -2.0 * names.index(v)] for v in lab])
    kw = dict(q_vect=np.array([0.2, 0.8]), n_scen_fit=4)
    f = fm.fitted(fc, xt, y, **kw)
    ctx.step()
    xn = xt.copy()
    num = {v: i for i, v in enumerate(sorted(names))}
    xn['cat'] = [num[v] for v in lab]
    ref = fm.fitted(fc, xn, y, **kw)
    p = f.predict(xt.copy())
    r = ref.predict(xn.copy())
    ctx.eq(p.values, r.values, 'real:%s:numbers' % fc, str(case))
    for rows in ([0], [1], [2, 0], [5, 5, 1], list(range(47, -1, -1)), [0, 3, 6]):
        a = f.predict(xt.iloc[rows].copy())
        ctx.eq(a.values, p.values[rows], 'real:%s:subset' % fc, 'rows %s' % rows)
        b = f.predict_quantiles(xt.iloc[rows].copy(), dataframe=False)
        ctx.eq(b, ref.predict_quantiles(xn.iloc[rows].copy(), dataframe=False), 'real:%s:quantiles' % fc, 'rows %s' % rows)
        ctx.step(2)
        ctx.state('real', fc, tuple(order), tuple(rows))
    bad = xt.iloc[:2].copy()
    bad['cat'] = ['z', 'unknown']
    for what, fr in (('unseen', bad), ('missing', xt.iloc[:2].drop(columns='cat'))):
        try:
            f.predict(fr)
            ctx.fail('real:%s:%s' % (fc, what), 'a table with %s categorical data was accepted' % what)
        except (ValueError, KeyError):
            pass
    ctx.trace()


def plain(ctx, case):
    f = recorder()
    df = pd.DataFrame({'a': [1.5, np.nan, -0.0], 'b': np.array([1, 2, 3], dtype='int8'), 'c': [True, False, True], 'd': np.array([1, 2, 3], dtype='uint64')},
                      index=pd.date_range('2021', periods=3, freq='1h', tz='Europe/Zurich'))
    d0 = df.copy()
    f.fit(df, None)
    f.log = f.log[:1]
    f.predict(df)
    for _, e in f.log:
        ctx.ok(e.equals(d0) and list(e.dtypes) == list(d0.dtypes) and e.index.equals(d0.index), 'plain:changed', 'numeric data was changed')
    ctx.ok(df.equals(d0), 'plain:input')
    ctx.state('plain')
    ctx.step(2)
    ctx.trace()
