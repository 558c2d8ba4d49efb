"""C18: cross-validation and tuning: every small fold set, strategy, scoring and storage option with a model that records every row it sees."""
import itertools
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, RegressorMixin

PID = 'C18'
PREFORK = True
BOUNDS = dict(quick='tables of 3..5 rows x 4 index kinds; every pair of train/test splits drawn from all splits of the rows (disjoint, non-empty); folds as masks or positions; one or '
                    'two scorers, key choice, storage; one-fold strategy until every fold was chosen; tuning: every order of 3 parameter values x 6 ways of giving folds x strategies; '
                    'every rank pattern of 4 trials; default parameter spaces of 4 models: every corner and middle of the proposed values', thorough='6 rows, triples of splits, 4 parameter values, 5 trials')
ASSUMPTIONS = ['tuning changes the parameters of the model object it is given (as documented by the set_params use); nothing is claimed on that object afterwards',
               'the one-fold strategy is observed until all folds were chosen']

LOG = []


class Rec(BaseEstimator, RegressorMixin):
    def __init__(self, a=0.0, b=0.0):
        self.a, self.b = a, b

    def fit(self, x, y):
        self.fits_ = getattr(self, 'fits_', 0) + 1
        self.m_ = y.values.mean(0)
        self.cols_ = list(y.columns)
        self.rows_ = [int(v) for v in x['id'].values]
        LOG.append(('fit', self.fits_, tuple(self.rows_), tuple(int(v) for v in np.asarray(y)[:, 0] // 1000), self.a, self.b))
        return self

    def predict(self, x):
        LOG.append(('predict', tuple(self.rows_), tuple(int(v) for v in x['id'].values), self.a, self.b))
        return pd.DataFrame(self.m_ + self.a + x[['id']].values * (1 + self.b), index=x.index, columns=self.cols_)


def mae(x, t, agg_index=None, **kw):
    return (x - t).abs()


def sqe(x, t, agg_index=None, **kw):
    return (x - t) ** 2


def table(n, ik):
    ix = dict(date=pd.date_range('2021-03-05', periods=n, freq='1h'), rev=pd.RangeIndex(n - 1, -1, -1), text=pd.Index(list('qwertyuiop')[:n]), step=pd.RangeIndex(10, 10 + n))[ik]
    x = pd.DataFrame({'id': np.arange(n, dtype=float), 'f': np.arange(n) ** 2.0}, index=ix)
    y = pd.DataFrame({'t0': 1000.0 * np.arange(n) + 7, 't1': 100.0 * np.arange(n) ** 2}, index=ix)
    return x, y


def splits(n):
    """all (train, test) disjoint non-empty; train and test need not cover everything"""
    res = []
    for lab in itertools.product((0, 1, 2), repeat=n):
        if 1 in lab and 2 in lab:
            res.append(([i for i in range(n) if lab[i] == 1], [i for i in range(n) if lab[i] == 2]))
    return res


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for ik in ('date', 'rev', 'text', 'step'):
        for n in (3, 4) if q else (3, 4, 5):
            sp = splits(n)
            for i in range(0, len(sp), 6):
                res.append(dict(kind='full', ik=ik, n=n, lo=i, hi=i + 6))
        res.append(dict(kind='random', ik=ik))
        res.append(dict(kind='tri', ik=ik))
        for form in ('int', 'float', 'list', 'gen', 'formatter', 'pos'):
            if form == 'formatter' and ik != 'date':
                continue
            for strat, store in itertools.product(('full', 'random_fold'), (False, True)):
                res.append(dict(kind='tune', ik=ik, form=form, strat=strat, store=store, values=3 if q else 4))
    res.append(dict(kind='ranks', n=4 if q else 5))
    res.append(dict(kind='badparam'))
    for name in ('LinearForecaster', 'LGBForecaster', 'LGBMHybrid', 'PICNN'):
        for pts in itertools.product((0, 1, 2), repeat=3):
            res.append(dict(kind='space', name=name, pts=list(pts)))
    return res


def space(ctx, case):
    """tuning without a given parameter space: every proposed value of every default parameter is the one of the model that is fitted and scored"""
    import optuna
    from pyforecaster import trainer, forecaster
    from pyforecaster.forecasting_models import gradientboosters
    name, pts = case['name'], case['pts']
    if name == 'PICNN':
        from pyforecaster.forecasting_models.neural_models.ICNN import PICNN as base
    else:
        base = getattr(forecaster, name, None) or getattr(gradientboosters, name)
    seen, used = [], []

    class Corners(optuna.samplers.BaseSampler):
        """the lowest, middle or highest value of the parameters that are asked for, in turn"""
        def infer_relative_search_space(self, study, trial):
            return {}

        def sample_relative(self, study, trial, space):
            return {}

        def sample_independent(self, study, trial, pname, d):
            k = pts[len(used) % len(pts)]
            if hasattr(d, 'choices'):
                v = (d.choices[0], d.choices[len(d.choices) // 2], d.choices[-1])[k]
            else:
                v = (d.low, (d.low + d.high) / 2 if isinstance(d, optuna.distributions.FloatDistribution) else (d.low + d.high) // 2, d.high)[k]
            used.append((pname, v))
            return v

    def fit(self, x, y, *a, **kw):
        seen.append(dict(self.get_params()))
        self.cols_ = list(y.columns)
        return self

    # the parameter space belongs to the name of the class
    cls = type(name, (base,), dict(fit=fit, predict=lambda self, x, **kw: pd.DataFrame(0.0, index=x.index, columns=self.cols_)))
    model = cls(optimization_vars=['id']) if name == 'PICNN' else cls()
    x, y = table(6, 'date')
    start = dict(model.get_params())
    study, _ = trainer.hyperpar_optimizer(x, y, model, n_trials=1, cv=2, metric=mae, sampler=Corners())
    ctx.step()
    ctx.state('space', name, str(pts))
    given = dict(used)
    info = '%s proposed %s' % (name, given)
    ctx.ok(len(seen) == 2 and len(given) > 0 and study.best_params == given, 'space:scored', '%s: %d fits, best %s' % (info, len(seen), study.best_params))
    for got in seen:
        for k, v in got.items():
            want = given.get(k, start.get(k))
            ctx.ok(v is want or str(v) == str(want), 'space:value', '%s: the scored model has %s=%s, expected %s' % (info, k, v, want))
        ctx.ok(set(given) <= set(got), 'space:missing', '%s: %s are no parameters of the scored model' % (info, set(given) - set(got)))
    ctx.trace()


def run(ctx, case):
    import optuna
    optuna.logging.set_verbosity(optuna.logging.ERROR)
    globals()[case['kind']](ctx, case)


def as_form(fold, n, form):
    if form == 'mask':
        return tuple(np.isin(np.arange(n), s) for s in fold)
    return tuple(np.array(s) for s in fold)


def expect(x, y, fold, a, b, metric):
    tr, te = fold
    pred = y.values[tr].mean(0) + a + x[['id']].values[te] * (1 + b)
    d = np.abs(pred - y.values[te])
    return pred, d.mean() if metric is mae else (d ** 2).mean()


class Trial:
    def __init__(self):
        self.attrs = {}

    def set_user_attr(self, k, v):
        self.attrs[k] = v


def judge_full(ctx, x, y, folds, form, scoring, storage, sk, info, a=2.0, b=0.5):
    from pyforecaster.trainer import cross_validate
    from pyforecaster.metrics import make_scorer
    n = len(x)
    x0, y0 = x.copy(), y.copy()
    fold_in = [as_form(f, n, form) for f in folds]
    sc = make_scorer(mae) if scoring == 'one' else {'m1': make_scorer(mae), 'm2': make_scorer(sqe)}
    LOG.clear()
    tr = Trial()
    model = Rec(a=a, b=b)
    kw = dict(score_key=sk) if sk else {}
    res, score = cross_validate(x, y, model, fold_in, scoring=sc, cv_type='full', trial=tr, storage_fun=(lambda s, r: None) if storage else None, **kw)
    ctx.step(len(folds))
    ctx.state(str(list(x.index)), str(folds), form, scoring, storage, sk)
    fits = [l for l in LOG if l[0] == 'fit']
    ctx.ok([(l[2], l[3]) for l in fits] == [(tuple(f[0]),) * 2 for f in folds], 'full:train-rows', '%s: models were trained on %s, folds %s' % (info, [l[2:4] for l in fits], folds))
    ctx.ok(all(l[1] == 1 for l in fits), 'full:fresh', '%s: a model was trained more than once' % info)
    ctx.ok(all((l[4], l[5]) == (a, b) for l in fits), 'full:params', info)
    used = [l for l in LOG if l[0] == 'predict']
    ctx.ok(all((list(l[1]), list(l[2])) in [(list(f[0]), list(f[1])) for f in folds] for l in used), 'full:test-rows', '%s: predictions (trained on, predicted) %s, folds %s' % (info, [l[1:3] for l in used], folds))
    metric = sqe if sk == 'test_m2' else mae
    per = [expect(x0, y0, f, a, b, metric)[1] for f in folds]
    ctx.ok(abs(score - np.mean(per)) < 1e-6 * max(1, abs(np.mean(per))), 'full:score', '%s: score %s, mean over folds %s of %s' % (info, score, np.mean(per), per))
    ctx.eq(np.asarray(res[sk or ('test_score' if scoring == 'one' else 'test_m1')], float), np.array(per), 'full:per-fold', info, tol=1e-6)
    ctx.eq(np.asarray(tr.attrs.get('cv_test_scores', [])), np.array(per), 'full:attrs', info, tol=1e-6)
    if scoring == 'two':
        ctx.eq(np.asarray(res['test_m2'], float), np.array([expect(x0, y0, f, a, b, sqe)[1] for f in folds]), 'full:second', info, tol=1e-6)
    if storage:
        for i, f in enumerate(folds):
            yt, yh = res['y_te']['fold_%d' % i], res['y_hat']['fold_%d' % i]
            ctx.ok(yt.equals(y0.iloc[f[1]]), 'full:stored-true', '%s fold %d: %s' % (info, i, yt.index.tolist()))
            if ctx.ok(list(yh.index) == list(y0.index[f[1]]), 'full:stored-labels', '%s fold %d' % (info, i)):
                ctx.eq(yh.values, expect(x0, y0, f, a, b, mae)[0], 'full:stored-pred', '%s fold %d' % (info, i), tol=1e-6)
        ctx.ok(len(res['y_te']) == len(res['y_hat']) == len(folds), 'full:stored-count', info)
    ctx.ok(x.equals(x0) and y.equals(y0), 'full:input', info)
    ctx.ok(not hasattr(model, 'fits_') and model.get_params() == dict(a=a, b=b), 'full:model', info + ": the caller's model was changed")


def full(ctx, case):
    n, ik = case['n'], case['ik']
    sp = splits(n)
    x, y = table(n, ik)
    for f in sp[case['lo']:case['hi']]:
        judge_full(ctx, x, y, [f], 'mask', 'one', True, None, '%s %s' % (ik, [f]))
        for k, g in enumerate(sp):
            form, scoring, storage, sk = ('mask', 'pos')[k % 2], ('one', 'two')[k // 2 % 2], k // 4 % 2 == 0, None
            if scoring == 'two' and k % 3:
                sk = 'test_m2' if k % 3 == 1 else 'test_m1'
            judge_full(ctx, x, y, [f, g], form, scoring, storage, sk, '%s folds %s as %s, scoring %s storage %s key %s' % (ik, [f, g], form, scoring, storage, sk))
        ctx.trace()


def tri(ctx, case):
    """three and four folds of a larger table, every option"""
    x, y = table(7, case['ik'])
    folds = [([0, 1, 2], [4, 6]), ([3, 4, 5, 6], [0]), ([1, 6], [2, 3, 5]), ([5], [1, 2])]
    for p in itertools.permutations(range(4), 3):
        for form, storage, (scoring, sk) in itertools.product(('mask', 'pos'), (False, True), (('one', None), ('two', None), ('two', 'test_m1'), ('two', 'test_m2'))):
            judge_full(ctx, x, y, [folds[i] for i in p], form, scoring, storage, sk, '%s %s %s' % (case, p, form))
        ctx.trace()


def random(ctx, case):
    from pyforecaster.trainer import cross_validate
    from pyforecaster.metrics import make_scorer
    n = 6
    x, y = table(n, case['ik'])
    x0, y0 = x.copy(), y.copy()
    folds = [([0, 1, 2], [4, 5]), ([3, 4, 5], [0]), ([1, 5], [2, 3, 4]), ([5, 2], [3, 1])]
    for k, form, scoring, storage in itertools.product((1, 2, 3, 4), ('mask', 'pos'), ('one', 'two', 'two:m2'), (False, True)):
        fs = folds[:k]
        if form == 'mask':
            fs = [(sorted(a), sorted(b)) for a, b in fs]
        seen = set()
        for rep in range(200):
            np.random.seed(rep)
            LOG.clear()
            sk = 'm2' if scoring == 'two:m2' else None
            sc = make_scorer(mae) if scoring == 'one' else {'m1': make_scorer(mae), 'm2': make_scorer(sqe)}
            model = Rec(a=1.0)
            res, score = cross_validate(x, y, model, [as_form(f, n, form) for f in fs], scoring=sc, cv_type='random_fold', storage_fun=(lambda s, r: None) if storage else None, score_key=sk)
            ctx.step()
            fits = [l for l in LOG if l[0] == 'fit']
            info = '%s k=%d %s %s' % (case['ik'], k, form, scoring)
            hit = [i for i, f in enumerate(fs) if fits and fits[0][2] == tuple(f[0]) and fits[0][3] == tuple(f[0])]
            if not ctx.ok(len(fits) == 1 and len(hit) == 1, 'random:train-rows', '%s: trained on %s, folds %s' % (info, [l[2:4] for l in fits], fs)):
                break
            ctx.ok(not hasattr(model, 'fits_') and model.get_params() == Rec(a=1.0).get_params(), 'random:model', info + ": the caller's model was changed")
            f = fs[hit[0]]
            seen.add(hit[0])
            ctx.ok(all(list(l[2]) == list(f[1]) for l in LOG if l[0] == 'predict'), 'random:test-rows', '%s: predicted rows %s, test rows %s' % (info, [l[2] for l in LOG if l[0] == 'predict'], f[1]))
            pred, e = expect(x0, y0, f, 1.0, 0.0, sqe if sk == 'm2' else mae)
            ctx.ok(abs(score - e) < 1e-6 * max(1, abs(e)), 'random:score', '%s: %s instead of %s' % (info, score, e))
            if storage:
                ctx.ok(res['y_te'].equals(y0.iloc[f[1]]), 'random:stored-true', info)
                ctx.eq(np.asarray(res['y_hat']), pred, 'random:stored-pred', info, tol=1e-6)
            if len(seen) == k:
                break
        ctx.ok(len(seen) == k, 'random:all-folds', '%s k=%d: folds never evaluated in 200 draws: %s' % (case['ik'], k, set(range(k)) - seen))
        ctx.state(case['ik'], k, form, scoring, storage)
        ctx.trace()
    ctx.ok(x.equals(x0) and y.equals(y0), 'random:input')


def kfold(n, k):
    sizes = [n // k + (i < n % k) for i in range(k)]
    res, p = [], 0
    for s in sizes:
        te = list(range(p, p + s))
        res.append(([i for i in range(n) if i not in te], te))
        p += s
    return res


def tune(ctx, case):
    import optuna
    from pyforecaster.trainer import hyperpar_optimizer, retrieve_cv_results, base_storage_fun
    n, form = 8, case['form']
    x, y = table(n, case['ik'])
    x0, y0 = x.copy(), y.copy()
    folds = [([0, 1, 2, 6], [4, 5]), ([3, 4, 5], [0, 7]), ([1, 5], [2, 3])]
    vals = [-1500.0, 40.0, 900.0, 7000.0][:case['values']]
    for order in itertools.permutations(vals):
        kw = {}
        if form in ('int', 'float'):
            cv, fs = (3, kfold(n, 3)) if form == 'int' else (2.0, kfold(n, 2))
        elif form == 'list':
            cv, fs = [as_form(f, n, 'mask') for f in folds], folds
        elif form == 'pos':
            cv, fs = [as_form(f, n, 'pos') for f in folds], folds
        elif form == 'gen':
            cv, fs = (as_form(f, n, 'mask') for f in folds), folds
        else:
            from pyforecaster.formatter import Formatter
            import warnings
            warnings.simplefilter('ignore')
            fmt = Formatter(logger=None).add_transform(['z'], lags=np.arange(1))
            fmt.transform(pd.DataFrame({'z': np.arange(40.0)}, index=pd.date_range('2021-03-05', periods=40, freq='1h')))
            kw['formatter'] = fmt
            cv = 3
            fs = [(list(np.where(a)[0]), list(np.where(b)[0])) for a, b in fmt.time_kfcv(x.index, 3)]
            if not all(a and b for a, b in fs):
                ctx.fail('tune:setup', 'empty folds %s' % fs)
                return
        it = iter(order)
        LOG.clear()
        np.random.seed(1)

        def space(trial):
            v = next(it)
            trial.suggest_float('a', v, v)
            # notes of the user beside the scores of the folds
            trial.set_user_attr('a_note', 3.0)
            trial.set_user_attr('z_note', 'text')
            return {'a': v}
        model = Rec(b=0.25)
        study, stored = hyperpar_optimizer(x, y, model, n_trials=len(order), metric=mae, cv=cv, param_space_fun=space, cv_type=case['strat'],
                                           sampler=optuna.samplers.RandomSampler(seed=1), storage_fun=base_storage_fun if case['store'] else None, **kw)
        ctx.step(len(order))
        info = '%s order %s' % (case, order)
        ctx.state(str(case), order)
        ts = study.trials
        if not ctx.ok(len(ts) == len(order) and all(t.state.name == 'COMPLETE' for t in ts), 'tune:trials', info):
            continue
        exp, spread = [], []
        for k, t in enumerate(ts):
            ctx.ok(t.params['a'] == order[k], 'tune:params', info)
            per = [expect(x0, y0, f, order[k], 0.25, mae) for f in fs]
            fits = [l for l in LOG if l[0] == 'fit' and l[4] == order[k]]
            if case['strat'] == 'full':
                exp.append(np.mean([p[1] for p in per]))
                spread.append(np.std([p[1] for p in per]))
                ctx.ok([l[2] for l in fits] == [tuple(f[0]) for f in fs], 'tune:train-rows', '%s trial %d trained on %s' % (info, k, [l[2] for l in fits]))
                ctx.eq(np.asarray(t.user_attrs['cv_test_scores'], float), np.array([p[1] for p in per]), 'tune:fold-scores', info, tol=1e-6)
            else:
                hit = [i for i, f in enumerate(fs) if len(fits) == 1 and fits[0][2] == tuple(f[0])]
                if not ctx.ok(len(hit) == 1, 'tune:train-rows', '%s trial %d trained on %s' % (info, k, [l[2] for l in fits])):
                    return
                per = [per[hit[0]]]
                exp.append(per[0][1])
            ctx.ok(abs(t.value - exp[-1]) < 1e-6 * max(1, exp[-1]), 'tune:value', '%s trial %d: value %s, held-out error %s' % (info, k, t.value, exp[-1]))
            if case['store']:
                got = stored[k]
                if case['strat'] == 'full':
                    for i in range(len(fs)):
                        ctx.eq(np.asarray(got['fold_%d' % i]), per[i][0], 'tune:stored', '%s trial %d fold %d' % (info, k, i), tol=1e-6)
                else:
                    ctx.eq(np.asarray(got), per[0][0], 'tune:stored', '%s trial %d' % (info, k), tol=1e-6)
        if case['store']:
            ctx.ok(len(stored) == len(order), 'tune:stored-count', info)
        else:
            ctx.ok(not stored, 'tune:stored-none', info)
        best = int(np.argmin(exp))
        ctx.ok(study.best_params == {'a': order[best]} and abs(study.best_value - exp[best]) < 1e-6 * max(1, exp[best]), 'tune:best', '%s: best %s, errors %s' % (info, study.best_params, exp))
        df = retrieve_cv_results(study)
        ctx.ok(list(df['rank']) == [sorted(set(np.round(exp, 6))).index(v) + 1 for v in np.round(exp, 6)], 'tune:rank', '%s: ranks %s of %s' % (info, list(df['rank']), exp))
        if case['strat'] == 'full':
            ctx.eq(np.asarray(df['cv_test_score_std'], float), np.array(spread), 'tune:spread', info, tol=1e-6)
        ctx.ok(x.equals(x0) and y.equals(y0), 'tune:input', info)
        ctx.trace()


def ranks(ctx, case):
    import optuna
    from pyforecaster.trainer import retrieve_cv_results
    n = case['n']
    for vals in itertools.product((0.5, 1.5, 4.0, -2.0)[:n], repeat=n):
        if case['n'] > 4 and vals[0] < vals[1]:
            continue
        for attrs in (False, True):
            st = optuna.create_study(direction='minimize', sampler=optuna.samplers.RandomSampler(seed=0))
            sc = [np.array([v - 1, v + 2.0 * k, v]) for k, v in enumerate(vals)]
            for k, v in enumerate(vals):
                st.add_trial(optuna.trial.create_trial(params={'p': float(k)}, distributions={'p': optuna.distributions.FloatDistribution(0, 9)}, value=v,
                                                       user_attrs={'cv_test_scores': sc[k]} if attrs else {}))
            df = retrieve_cv_results(st)
            ctx.step()
            u = sorted(set(vals))
            ctx.ok(list(df['value']) == list(vals) and list(df['params_p']) == list(range(n)), 'ranks:trials', str(vals))
            ctx.ok(list(df['rank']) == [u.index(v) + 1 for v in vals], 'ranks:rank', '%s: %s' % (vals, list(df['rank'])))
            if attrs:
                ctx.eq(df['cv_test_score_std'].values, np.array([s.std() for s in sc]), 'ranks:std', str(vals), tol=1e-9)
        ctx.state(vals)
    ctx.trace()


def badparam(ctx, case):
    """parameters that do not exist in the model are refused, they would have no effect"""
    from pyforecaster.trainer import hyperpar_optimizer
    x, y = table(6, 'date')
    for names in itertools.chain.from_iterable(itertools.combinations(('a', 'b', 'zz', 'model__a'), k) for k in (1, 2, 3)):
        try:
            hyperpar_optimizer(x, y, Rec(), n_trials=1, metric=mae, cv=2, param_space_fun=lambda t: {k: 1.0 for k in names})
            refused = False
        except ValueError:
            refused = True
        ctx.step()
        ctx.state(names)
        ctx.ok(refused == any(k not in ('a', 'b') for k in names), 'badparam', '%s refused=%s' % (names, refused))
    ctx.trace()
