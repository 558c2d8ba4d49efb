"""C29: configuration: every forecaster family x every (pair of) parameter values x way of configuring it, compared with a freshly constructed forecaster."""
import contextlib
import copy
import io
import itertools
import numpy as np
import pandas as pd
from mc import fcmodel as fm, sched

PID = 'C29'
PREFORK = True
BOUNDS = dict(quick='13 forecaster families x every single and every pair of alternative parameter values x {constructed, set on an unfitted model, set on a fitted model, cloned, cloned after fitting, '
                    'rebuilt from reported parameters, cross-validated}; 12 families x scenario counts, extra node, nodes per step; 5 self tuning forecasters x every single and pair of their untuned parameters, given / set later / cloned', thorough='the same with every triple of alternative values')
ASSUMPTIONS = ['structural parameters of the mixtures of recursive forecasters (number of steps, target) are set at construction', 'random feature models are compared under the same global seed']

Q2 = np.array([0.2, 0.5, 0.7])

FAMILIES = {
    'lin': dict(kind=['ridge'], q_vect=[Q2], val_ratio=[0.4], conditional_to_hour=[False], max_scengen_rows=[9], scengen_random_state=[3]),
    'lgb': dict(n_estimators=[2], learning_rate=[0.5], num_leaves=[2], min_child_samples=[8], max_depth=[1], objective=['mae'], colsample_bytree=[0.5], q_vect=[Q2], val_ratio=[0.4], conditional_to_hour=[False]),
    'hybrid1': dict(n_estimators=[2], learning_rate=[0.5], num_leaves=[2], min_child_samples=[8], max_depth=[1], objective=['mae'], n_single=[0, 2], red_frac_multistep=[0.3], val_ratio=[0.4], conditional_to_hour=[False]),
    'energy': dict(n_estimators=[2], learning_rate=[0.5], num_leaves=[2], val_ratio=[0.4], conditional_to_hour=[False]),
    'qrf1': dict(n_estimators=[2], max_depth=[1], min_samples_leaf=[6], min_samples_split=[12], max_features=[0.5], max_leaf_nodes=[3], random_state=[5], n_single=[0, 2], bootstrap=[False], criterion=['absolute_error'],
                 ccp_alpha=[0.5], max_samples=[0.3], min_impurity_decrease=[0.3], min_weight_fraction_leaf=[0.2], q_vect=[Q2], val_ratio=[0.4]),
    'rff': dict(dim_kernel=[2], std_kernel=[2.0], val_ratio=[0.4], conditional_to_hour=[False]),
    'addrff': dict(dim_kernel=[2], std_kernel=[2.0], n_models=[1], val_ratio=[0.4], conditional_to_hour=[False]),
    'pers': dict(val_ratio=[0.4], conditional_to_hour=[True], q_vect=[Q2]),
    'hw': dict(periods=[[3, 6]], n_sa=[1], constraints=[[-0.05, 0.05]], alpha=[0.6], gamma_1=[0.5], gamma_2=[0.4], val_ratio=[0.4], q_vect=[Q2], conditional_to_hour=[False]),
    'hwm': dict(alphas=[np.array([0.3, 0.4])], gammas_1=[np.array([0.3, 0.4])], gammas_2=[np.array([0.3, 0.4])], periods=[[3, 6]], constraints=[[-0.05, 0.05]], models_periods=[np.array([2])], q_vect=[Q2]),
    'fkm': dict(m=[12], n_predictors=[1, 3], r=[1.0], q=[0.5], periodicity=[3], n_sa=[1], q_vect=[Q2]),
    'fes': dict(alpha=[0.3], omega=[0.7], n_harmonics=[1], m=[6, 12], periodicity=[3], n_sa=[1], val_ratio=[0.5], q_vect=[Q2], conditional_to_hour=[False]),
    'fk': dict(alpha=[0.3], omega=[0.7], r=[1.0], q=[0.5], n_harmonics=[1], m=[6, 12], periodicity=[3], n_sa=[1], val_ratio=[0.5], q_vect=[Q2], conditional_to_hour=[False]),
}
BASE = dict(fes=dict(target_name='y', n_sa=2, m=8, periodicity=4, optimize_hyperpars=False, verbose=False), fk=dict(target_name='y', n_sa=2, m=8, periodicity=4, optimize_hyperpars=False, verbose=False),
            hwm=dict(periods=[4, 8], target_name='y', n_sa=2, optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False, models_periods=np.array([1, 2])), seas=dict(target_col='y', n_sa=2, seasonality=8),
            hw=dict(periods=[4, 8], target_name='y', n_sa=2, optimize_hyperpars=False, verbose=False, val_ratio=0.3), fkm=dict(target_name='y', n_sa=2, m=8, periodicity=4, n_predictors=2, optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False),
            pers=dict(target_col='y', n_sa=2))


def setup():
    import lightgbm, quantile_forest  # noqa
    import pyforecaster.trainer  # noqa


def ctor(fam):
    from pyforecaster.forecasting_models import benchmarks as b, holtwinters as h, fast_adaptive_models as fa
    if fam in BASE:
        cls = dict(pers=b.Persistent, seas=b.SeasonalPersistent, hwm=h.HoltWintersMulti, hw=h.HoltWinters, fes=fa.Fourier_es, fk=fa.FK, fkm=fa.FK_multi)[fam]
        return lambda **kw: cls(**{**BASE[fam], **kw})

    def mk(**kw):
        base = fm.make(fam) if fam != 'energy' else fm.make(fam, n_single=2)
        par = {k: v for k, v in base.get_params().items() if k not in kw and k not in ('W', 'b', 'logger')}
        if 'q_vect' in kw:
            par.pop('q_vect', None)
        return type(base)(**{**par, **kw})
    return mk


def cases(tier, seed):
    res = []
    for fam, pars in FAMILIES.items():
        flat = [(k, i) for k in pars for i in range(len(pars[k]))]
        res.append(dict(kind='config', fam=fam, sets=[[]]))
        for r in (1, 2) if tier == 'quick' else (1, 2, 3):
            combos = [list(map(list, c)) for c in itertools.combinations(flat, r) if len({k for k, _ in c}) == r]
            for j in range(0, len(combos), 6):
                res.append(dict(kind='config', fam=fam, sets=combos[j:j + 6]))
        res.append(dict(kind='cv', fam=fam))
    for fam, pars in TUNED.items():
        flat = [(k, i) for k in pars for i in range(len(pars[k]))]
        combos = [list(map(list, c)) for r in (1, 2) for c in itertools.combinations(flat, r) if len({k for k, _ in c}) == r]
        for j in range(0, len(combos), 4):
            res.append(dict(kind='tuned', fam=fam, sets=combos[j:j + 4]))
    for fam in SCEN:
        for nodes, extra, how in itertools.product(([1, 2], [2, 3]), (False, True), ('default', 'made', 'clone')):
            res.append(dict(kind='scen', fam=fam, nodes=nodes, extra=extra, how=how))
    return res


SCEN = ('lin', 'ridge', 'lgb', 'hybrid0', 'hybrid1', 'energy', 'qrf0', 'qrf1', 'rff', 'addrff', 'pers', 'seas')     # the recursive forecasters do not fit a scenario model


def scen(ctx, case):
    """scenario settings given at construction are the ones in force when scenarios and trees are drawn"""
    from sklearn.base import clone
    fam, extra = case['fam'], case['extra']
    nodes = case['nodes'] if not extra or case['nodes'][0] != 1 else [2, 2]
    kw = dict(n_scen_fit=7)
    if case['how'] != 'default':
        kw['additional_node'] = extra
    elif extra:
        return
    if not extra:
        nodes = [1, nodes[1]]
    if case['how'] == 'made':
        kw['nodes_at_step'] = np.array(nodes)
    f = ctor(fam)(**kw)
    if case['how'] == 'clone':
        f = clone(f)
    if case['how'] != 'made':
        nodes = None
    x, y, z = problem(fam)
    np.random.seed(3)
    f.fit(x.copy(), y.copy())
    q = z.iloc[[2]]
    info = str(case)
    ctx.step(3)
    ctx.state('scen', fam, case['how'], extra, str(nodes))
    s = np.asarray(f.predict_scenarios(q.copy(), random_state=1))
    ctx.ok(s.shape == (1, 2 + extra, 7), 'scen:count', '%s: %s scenarios instead of (1, %d, 7)' % (info, s.shape, 2 + extra))
    s = np.asarray(f.predict_scenarios(q.copy(), n_scen=5, random_state=1))
    ctx.ok(s.shape == (1, 2 + extra, 5), 'scen:given', '%s: %s scenarios' % (info, s.shape))
    if nodes is None:
        ctx.trace()
        return
    t = f.predict_trees(q.copy(), n_scen=9, random_state=1)
    per = [sum(1 for _, d in t.nodes(data=True) if d['t'] == k) for k in range(2 + extra)]
    ctx.ok(per == [1] * extra + list(nodes), 'scen:nodes', '%s: tree with %s nodes per step' % (info, per))
    ctx.trace()


# parameters of the self tuning forecasters that the tuning does not search for: they are the ones of the tuned model as well
TUNED = {
    'hw': dict(n_sa=[1, 3], periods=[[3, 6], [4, 12]], constraints=[[-0.05, 0.05]], optimization_budget=[1, 3]),
    'fes': dict(n_sa=[1, 3], m=[6, 12], periodicity=[3, 5], optimization_budget=[1, 3]),
    'fk': dict(n_sa=[1, 3], m=[10, 12], periodicity=[3, 5], optimization_budget=[1, 3]),
    'hwm': dict(constraints=[[-0.05, 0.05]], periods=[[3, 6]], optimize_submodels_hyperpars=[True]),
    'fkm': dict(n_predictors=[1, 3], m=[12], optimize_submodels_hyperpars=[True]),
}


def tuned(ctx, case):
    """a forecaster that tunes itself keeps the parameters it was given, also when they were given after its construction"""
    from pyforecaster.forecasting_models import holtwinters as hw
    fam = case['fam']
    for combo in case['sets']:
        kw = {k: TUNED[fam][k][i] for k, i in combo}
        name = 'tuned %s %s' % (fam, kw)
        base = dict(optimize_hyperpars=True, optimization_budget=2, q_vect=Q2)
        if fam in ('hwm', 'fkm'):
            base['optimize_submodels_hyperpars'] = False
        if fam in ('fes', 'fk'):
            base['periodicity'] = 4                                   # its default follows the number of steps at construction
        res = {}
        for way in ('given', 'set', 'clone'):
            if fam == 'fkm' and way == 'clone':
                continue
            f = ctor(fam)(**{**base, **kw}) if way != 'set' else ctor(fam)(**base)
            if way == 'set':
                f.set_params(**copy.deepcopy(kw))
            elif way == 'clone':
                from sklearn.base import clone
                f = clone(f)
            with sched.executor_order(hw, [0, 1, 2]):
                res[way] = outcome(fam, f, seed=5)
            ctx.step()
            ctx.state('tuned', fam, way, str(combo))
            for k, v in kw.items():
                if k != 'optimize_submodels_hyperpars':               # the search of the components is over after a joint tuning
                    ctx.eq(np.asarray(getattr(f, k), float), np.asarray(v, float), 'tuned:kept', '%s %s: %s after the fit' % (name, way, k), tol=1e-12)
            for i, what in enumerate(('points', 'quantiles') if 'm' not in kw or fam == 'fkm' or way != 'set' else ()):   # the searched harmonics are those of the history length at construction
                ctx.eq(res[way][i], res['given'][i], 'tuned:%s' % what, '%s %s' % (name, way), tol=1e-9)
    ctx.trace()


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


def problem(fam):
    if fam in BASE:
        t = np.arange(60)
        r = np.random.RandomState(0)
        d = pd.DataFrame({'y': 3 + np.sin(t * 2 * np.pi / 8) + 0.4 * np.cos(t * np.pi) + 0.5 * r.randn(60)}, index=pd.date_range('2021-01-01', periods=60, freq='3h'))
        y = pd.concat([d['y'].shift(-k).rename('y_%d' % k) for k in (1, 2)], axis=1).bfill().ffill()
        return d.iloc[:48], y.iloc[:48], d.iloc[48:]
    x, y = fm.data(84, 2, freq='1h')
    return x.iloc[:72], y.iloc[:72], x.iloc[72:]


def outcome(fam, f, seed=11):
    """what a forecaster does after a fit on the reference problem"""
    x, y, z = problem(fam)
    np.random.seed(seed)
    f.fit(x.copy(), y.copy())
    p = f.predict(z.copy())
    q = f.predict_quantiles(z.copy(), dataframe=False)
    return np.asarray(p, float), np.asarray(q, float)


def same(a, b):
    return a[0].shape == b[0].shape and a[1].shape == b[1].shape and np.allclose(a[0], b[0], rtol=1e-9, atol=1e-9) and np.allclose(a[1], b[1], rtol=1e-9, atol=1e-9)


def config(ctx, case):
    from sklearn.base import clone
    fam = case['fam']
    mk = ctor(fam)
    with_q = lambda kw: 'q_vect' in kw
    plain = outcome(fam, mk())
    changed = 0
    for combo in case['sets']:
        kw = {k: FAMILIES[fam][k][i] for k, i in combo}
        if 'max_samples' in kw and 'bootstrap' in kw:
            continue                                                  # refused by the forest
        ref = outcome(fam, mk(**kw))
        again = outcome(fam, mk(**kw))
        name = '%s %s' % (fam, {k: str(v) for k, v in kw.items()})
        ctx.ok(same(ref, again), 'config:repeat', name)
        changed += not same(ref, plain)
        if len(combo) == 1 and not (fam in BASE and combo[0][0] in ('conditional_to_hour', 'val_ratio')) and combo[0][0] not in ('scengen_random_state', 'red_frac_multistep', 'n_single', 'logger', 'colsample_bytree', 'omega', 'r', 'periodicity') and (fam, combo[0][0]) != ('fk', 'alpha'):
            ctx.ok(not same(ref, plain), 'config:ignored:%s:%s' % (fam, combo[0][0]), '%s has no effect on %s' % (name, fam))
        ways = {}
        for way in ('set', 'set-fitted', 'clone', 'clone-fitted', 'rebuilt', 'copy') if len(combo) < 2 else ('set-fitted', 'clone'):
            if way == 'set-fitted' and (fam in ('rff', 'addrff') and 'dim_kernel' not in kw and 'std_kernel' not in kw or fam in ('fes', 'fk', 'fkm')):
                continue                                              # random features / adaptive state are kept by design
            if way.startswith('clone') and fam in ('rff',) and way == 'clone-fitted':
                continue                                              # the drawn random features are a reported parameter
            if way.startswith('set'):
                f = mk()
                if way == 'set-fitted':
                    outcome(fam, f)
                if with_q(kw):
                    f = mk(q_vect=kw['q_vect'])
                f.set_params(**kw)
            else:
                f = mk(**kw)
                if way == 'clone-fitted':
                    outcome(fam, f)
                if way.startswith('clone'):
                    f = clone(f)
                elif way == 'copy':
                    f = copy.deepcopy(f)
                else:
                    f = type(f)(**f.get_params())
            got = outcome(fam, f)
            ctx.step()
            ctx.state(fam, way, str(combo))
            ctx.eq(got[0], ref[0], 'config:%s:points' % way, '%s %s' % (name, way), tol=1e-9)
            ctx.eq(got[1], ref[1], 'config:%s:quantiles' % way, '%s %s' % (name, way), tol=1e-9)
    ctx.outcome(fam, changed)
    ctx.trace()


def cv(ctx, case):
    """every fold of a full cross-validation evaluates the configuration it was given"""
    from pyforecaster.trainer import cross_validate
    from pyforecaster.metrics import make_scorer, crps, rmse
    fam = case['fam']
    if fam in BASE:
        ctx.trace()
        return
    mk = ctor(fam)
    x, y = fm.data(60, 3, freq='6h')
    folds = [(np.arange(0, 40), np.arange(40, 50)), (np.arange(20, 60), np.arange(5, 15))]
    if fam == 'energy':
        y = y.iloc[:, :2]
    for k in FAMILIES[fam]:
        for v in FAMILIES[fam][k]:
            if fam in ('rff', 'addrff') or k in ('q_vect',):
                continue
            kw = {k: v}
            m = mk(**kw)
            for metric in (rmse, crps):
                np.random.seed(2)
                res, score = cross_validate(x, y, m, folds, scoring=make_scorer(metric), cv_type='full')
                np.random.seed(2)
                want = []
                for tr, te in folds:
                    f = mk(**kw).fit(x.iloc[tr], y.iloc[tr])
                    want.append(make_scorer(metric)(f, x.iloc[te], y.iloc[te]))
                ctx.step()
                ctx.state('cv', fam, k, str(v), metric.__name__)
                ctx.eq(np.asarray(res['test_score'], float), want, 'cv:score', '%s %s %s' % (fam, kw, metric.__name__), tol=1e-9)
    ctx.trace()
