"""C13: no trace of earlier calls: every sequence of fits and predictions up to a depth, each answer compared with that of a fresh forecaster."""
import itertools
import numpy as np
import pandas as pd
from mc import fcmodel as fm

PID = 'C13'
PREFORK = True
JAX_CACHE = True
BOUNDS = dict(quick='12 forecasters x 4 configurations: every history fit, op (10 operations: fits on 3 data sets, points, quantiles, scenarios, trees, row by row, shuffled rows, failing call), '
                    'plus every third operation of 4 in the plain configuration (and every fourth of 6 for the linear forecaster), and the final answers after each history; 5 baselines x every history of 1..3 operations; 5 networks x histories of fits and predictions',
              thorough='third (and fourth for the linear ones) operation over the full alphabet in every configuration; 15 networks x longer histories')
ASSUMPTIONS = ['training randomness that comes from the global numpy generator is fixed by seeding before each fit', 'scenario values carry a documented jitter of order 1e-9 (1e-6 at the extra '
               'root node), which is not compared', 'random projections of the Fourier feature regressors are given explicitly (they are drawn once by design)']
KINDS = ['lin', 'ridge', 'lgb', 'hybrid0', 'hybrid1', 'hybrid2', 'energy', 'qrf0', 'qrf1', 'rffw', 'addrffw', 'lincat']
SLOW = ('qrf0', 'qrf1', 'hybrid0', 'hybrid1', 'hybrid2', 'lgb', 'energy')
CONF = {'plain': {}, 'val': dict(val_ratio=0.4), 'cap': dict(max_scengen_rows=30, val_ratio=0.5), 'uncond': dict(conditional_to_hour=False)}
TAIL = ['fitB', 'quant', 'points', 'scen']
OPS = ['fitA', 'fitB', 'fitC', 'points', 'quant', 'scen', 'rows', 'shuf', 'tree', 'badfit']


def setup():
    import lightgbm  # noqa
    import pyforecaster.forecaster, pyforecaster.forecasting_models.gradientboosters, pyforecaster.forecasting_models.randomforests  # noqa
    import pyforecaster.forecasting_models.random_fourier_features  # noqa
    f = fm.fitted('lin', *DS('A'), q_vect=np.array([0.2, 0.8]), n_scen_fit=5)
    f.predict_trees(DS('A')[0].iloc[[0]], n_scen=6, nodes_at_step=np.array([1, 2]), random_state=1)   # compiles before forking


def DS(k, cat=False, conf=None, ctrl=False):
    steps = dict(A=2, B=2, C=3)[k]
    x, y = fm.data(dict(A=60, B=54, C=58)[k], steps, seed=dict(A=31, B=32, C=33)[k], step_shift=dict(A=0, B=40, C=-9)[k],
                   hours=list(range(0, 24, 4)) if conf in ('val', 'cap') else None)
    if cat:
        v = dict(A=['u', 'v'], B=['w', 'u', 'q'], C=['u', 'v', 'z'])[k]
        x['cat'] = [v[i % len(v)] for i in range(len(x))]
    if ctrl:                                                         # a control of the energy aware model
        x['force_off_-1'] = (x.pop('f1') > 0) * 1.0
    return x, y


def cases(tier, seed):
    res, q = [], tier == 'quick'
    for k in KINDS:
        for c in CONF:
            for first in ('fitA', 'fitC'):
                if first == 'fitC' and (c != 'plain' or q and k not in ('lin', 'lgb', 'hybrid1', 'qrf1')):
                    continue
                for o in OPS:
                    # operations allowed at the third, fourth .. position
                    if q:
                        tails = [] if c != 'plain' else [TAIL, OPS[1:7]] if k == 'lin' else [TAIL]
                    else:
                        tails = [OPS] if k in SLOW else [OPS, TAIL] if c != 'plain' else [OPS, OPS]
                    res.append(dict(k=k, conf=c, first=first, second=o, tails=tails))
    for d in itertools.product('AB', repeat=3):
        res.append(dict(k='brutal', seq=list(d)))
    for k in BASE:
        for n in (1, 2, 3):
            for seq in itertools.product(BASEOPS, repeat=n):
                res.append(dict(k='base', b=k, seq=list(seq)))
    nets = ('ffnn', 'ffnn-prob', 'lstm', 'picnn', 'inn-full') if q else ('nn', 'ffnn', 'ffnn-heads', 'ffnn-prob', 'lstm', 'lstm-prob', 'picnn', 'picnn-prob', 'piqcnn', 'rec', 'structured', 'latent', 'inn', 'inn-full', 'inn-quasi')
    for k in nets:
        for h in (['AB', 'APBA'] if q else ['AB', 'BA', 'AA', 'APBA', 'ABQ', 'APQBPQA']):
            res.append(dict(k='net', n=k, seq=h))
    return sorted(res, key=lambda c: 3 if c['k'] == 'net' else 2 if c['k'] in ('qrf0', 'qrf1') else 1, reverse=True)


REF = {}


def reference(k, conf, d):
    key = (k, conf, d)
    if key not in REF:
        f = build(k, conf)
        fit(f, k, d, conf)
        REF[key] = {o: observe(f, k, o, d, conf) for o in ('points', 'quant', 'scen', 'tree')}
    return REF[key]


def build(k, conf):
    kw = dict(q_vect=np.array([0.1, 0.5, 0.8]), n_scen_fit=6, **CONF[conf])
    if k == 'energy':
        kw['n_single'] = 2
    return fm.make('lin' if k == 'lincat' else k, **kw)


def fit(f, k, d, conf):
    x, y = DS(d, k == 'lincat', conf, k == 'energy')
    if k == 'energy':
        f.n_single = y.shape[1]
    x0, y0 = x.copy(), y.copy()
    np.random.seed(5)
    f.fit(x, y)
    return x.equals(x0) and y.equals(y0)


def query(k, d, conf):
    x, _ = DS(d, k == 'lincat', conf, k == 'energy')
    return x.iloc[[3, 40, 7, 11]]


def nxdata(t):
    return sorted((n, d['t'], round(float(d['p']), 6), tuple(np.round(np.ravel(d['v']), 4))) for n, d in t.nodes(data=True)), sorted(t.edges)


def observe(f, k, op, d, conf):
    x = query(k, d, conf)
    if op == 'points':
        return f.predict(x.copy()).values
    if op == 'quant':
        return f.predict_quantiles(x.copy(), dataframe=False)
    if op == 'scen':
        return f.predict_scenarios(x.copy(), n_scen=5, random_state=7)
    if op == 'tree':
        np.random.seed(2)
        steps = dict(A=2, B=2, C=3)[d]
        return [nxdata(f.predict_trees(x.iloc[[0]].copy(), n_scen=6, nodes_at_step=np.array([1, 2, 2][:steps]), random_state=7))]


def same(ctx, got, exp, op, key, info):
    if op == 'tree':
        (n1, e1), (n2, e2) = got[0], exp[0]
        ok = e1 == e2 and len(n1) == len(n2) and all(a[:2] == b[:2] and abs(a[2] - b[2]) < 1e-6 and np.allclose(a[3], b[3], atol=2e-4) for a, b in zip(n1, n2))
        ctx.ok(ok, key, '%s: tree %s, expected %s' % (info, got, exp))
    else:
        ctx.eq(got, exp, key, info, tol=1e-6 if op == 'scen' else 1e-9)


def run(ctx, case):
    if case['k'] in ('brutal', 'base', 'net'):
        return globals()[case['k']](ctx, case)
    k, conf = case['k'], case['conf']
    rest = list(itertools.product(*case['tails']))
    for tail in rest:
        seq = [case['first'], case['second']] + list(tail)
        f = build(k, conf)
        d = None
        for i, op in enumerate(seq):
            info = '%s/%s after %s, op %s' % (k, conf, seq[:i], op)
            ctx.step()
            if op.startswith('fit'):
                ctx.ok(fit(f, k, op[3], conf), '%s:fit-input' % k, info + ': the data passed to fit were changed')
                d = op[3]
            elif op == 'badfit':
                x, y = DS(d, k == 'lincat', conf, k == 'energy')
                try:
                    f.predict(x.iloc[:0].copy())
                except Exception:
                    pass
            else:
                ref = reference(k, conf, d)
                x = query(k, d, conf)
                x0 = x.copy()
                if op == 'rows':
                    got = np.vstack([f.predict(x.iloc[[r]].copy()).values for r in range(len(x))])
                    ctx.eq(got, ref['points'], '%s:rows' % k, info)
                    got = np.vstack([f.predict_quantiles(x.iloc[[r]].copy(), dataframe=False) for r in range(len(x))])
                    ctx.eq(got, ref['quant'], '%s:rows-quantiles' % k, info)
                elif op == 'shuf':
                    o = [2, 0, 0, 3, 1]
                    ctx.eq(f.predict(x.iloc[o].copy()).values, ref['points'][o], '%s:shuffled' % k, info)
                    ctx.eq(f.predict_quantiles(x.iloc[o].copy(), dataframe=False), ref['quant'][o], '%s:shuffled-quantiles' % k, info)
                else:
                    same(ctx, observe(f, k, op, d, conf), ref[op], op, '%s:%s' % (k, op), info)
                    call = dict(points=lambda: f.predict(x), quant=lambda: f.predict_quantiles(x), scen=lambda: f.predict_scenarios(x, n_scen=3, random_state=1), tree=lambda: None)[op]
                    call()
                    ctx.ok(x.equals(x0), '%s:predict-input' % k, info + ': the table passed to predict was changed')
            ctx.state(k, conf, tuple(seq[:i + 1]))
        ref = reference(k, conf, d)
        for op in ('points', 'quant', 'scen') if seq[-1] not in ('points', 'quant', 'scen') else ('points', 'quant'):
            same(ctx, observe(f, k, op, d, conf), ref[op], op, '%s:final-%s' % (k, op), '%s/%s after %s' % (k, conf, seq))
        ctx.trace()
    ctx.sample(case=case, histories=len(rest))


def brutal(ctx, case):
    from pyforecaster.forecasting_models.random_fourier_features import BrutalRegressor
    f = BrutalRegressor(n_iter=4, n_bins=3, bootstrap_fraction=0.9)
    for d in case['seq']:
        x, y = DS(d)
        x0, y0 = x.copy(), y.copy()
        np.random.seed(5)
        f.fit(x, y)
        ctx.ok(x.equals(x0) and y.equals(y0), 'brutal:fit-input')
        np.random.seed(5)
        ref = BrutalRegressor(n_iter=4, n_bins=3, bootstrap_fraction=0.9).fit(x, y)
        a, b = f.predict(x), f.predict(x)
        ctx.eq(a.values, ref.predict(x).values, 'brutal:refit', str(case))
        ctx.eq(a.values, b.values, 'brutal:repeat')
        ctx.step(2)
        ctx.state('brutal', tuple(case['seq']), d)
    ctx.trace()


BASE = {'persist': dict(n_sa=2), 'persist-hour': dict(n_sa=2, val_ratio=0.5, conditional_to_hour=True), 'season': dict(n_sa=5, seasonality=3), 'season-val': dict(n_sa=2, seasonality=24, val_ratio=0.6, conditional_to_hour=True),
        'discrete': {}}
BASEOPS = ['A', 'B', 'points', 'quant']


def basedata(k, d):
    x, y = DS(d)
    if k == 'discrete':
        y = (y > y.mean()).astype(int) + (y > y.mean() + y.std()).astype(int) * (2 if d == 'A' else 3)
    else:
        x['t'] = y['y0']
    return x, y


def basefit(k, d):
    from pyforecaster.forecasting_models import benchmarks as B
    kw = dict(q_vect=np.array([0.1, 0.5, 0.8]), n_scen_fit=6, **BASE[k])
    f = B.Persistent('t', **kw) if k.startswith('persist') else B.SeasonalPersistent('t', **kw) if k.startswith('season') else B.DiscreteDistr(**kw)
    return f, basefitted(f, k, d)


def basefitted(f, k, d):
    x, y = basedata(k, d)
    x0, y0 = x.copy(), y.copy()
    f.fit(x, y)
    return x.equals(x0) and y.equals(y0)


def base(ctx, case):
    """baselines: any sequence of fits and predictions, then the answers of a fresh one"""
    k, d = case['b'], 'A'
    f, _ = basefit(k, 'B')
    for i, op in enumerate(['A'] + case['seq']):
        info = '%s after %s, op %s' % (k, case['seq'][:i], op)
        ctx.step()
        if op in 'AB':
            d = op
            ctx.ok(basefitted(f, k, d), 'base:fit-input', info)
        else:
            x = basedata(k, d)[0].iloc[5:40]
            x0 = x.copy()
            f.predict(x) if op == 'points' or k == 'discrete' else f.predict_quantiles(x)
            ctx.ok(x.equals(x0), 'base:predict-input', info)
        ctx.state('base', k, tuple(case['seq'][:i]))
    g, _ = basefit(k, d)
    x = basedata(k, d)[0].iloc[5:40]
    ctx.eq(f.predict(x).values, g.predict(x).values, 'base:%s:points' % k, str(case))
    if k == 'discrete':
        ctx.eq(f.predict_probabilities(x).values, g.predict_probabilities(x).values, 'base:probabilities', str(case))
        rows = np.vstack([g.predict_probabilities(x.iloc[[r]]).values for r in range(0, len(x), 3)])
        ctx.eq(rows, g.predict_probabilities(x).values[::3], 'base:rows', str(case))
    else:
        ctx.eq(f.predict_quantiles(x, dataframe=False), g.predict_quantiles(x, dataframe=False), 'base:%s:quantiles' % k, str(case))
        if k.startswith('persist'):
            ctx.eq(np.vstack([f.predict_quantiles(x.iloc[[r]], dataframe=False) for r in range(0, len(x), 3)]), g.predict_quantiles(x, dataframe=False)[::3], 'base:rows', str(case))
    ctx.trace()


def net(ctx, case):
    """networks: P predicts points, Q quantiles; the answers after the history are those of a network fitted once"""
    from mc import nnmodel as nm
    k, d = case['n'], None
    m = nm.make(k)
    for i, op in enumerate(case['seq']):
        info = '%s after %s, op %s' % (k, case['seq'][:i], op)
        ctx.step()
        if op in 'AB':
            d = 'AB'.index(op)
            nm.fit(m, k, d)
        else:
            x = nm.data(d)[0]
            x0 = x.copy()
            (m.predict if op == 'P' else m.predict_quantiles)(x)
            ctx.ok(x.equals(x0), 'net:predict-input', info)
        ctx.state('net', k, case['seq'][:i + 1])
    f = nm.make(k)
    nm.fit(f, k, d)
    ref = nm.observe(f, k, d)
    for rep in range(2):
        bad = nm.same(nm.observe(m, k, d), ref)
        ctx.step()
        ctx.ok(not bad, 'net:%s' % k, '%s after %s, answer %d: differs from a network fitted once: %s' % (k, case['seq'], rep, bad[:2]))
    ctx.trace()
