"""C30: forecasts of networks are in the units of the targets: all class variants x normalization options against an independent normalization; early stopping and batching as a state machine over all short histories of validation losses; loss functions against numerical integration; sequence alignment of the Keras model for all small window sizes."""
import contextlib
import io
import itertools
import numpy as np
import pandas as pd

PID = 'C30'
PREFORK = True
JAX_CACHE = True
BOUNDS = dict(quick='20 class variants x {target normalized, not} x 4 sets of not normalized inputs x {mean subtracted, not}; all subsets of up to 3 of 6 rows; 3 affine changes of the targets; early stopping: all sequences of 5 validation losses from {1,2,3} x 3 tolerances x 2 patience values x 2 evaluation intervals; loss functions on a 5x5x7 grid; all (history 1..5, horizon 1..3, length) windows of the Keras model; all single alternative parameters of 5 variants x 3 ways of configuring',
              thorough='early stopping sequences of 7 losses, all variants x all options x 3 data sets')
ASSUMPTIONS = ['network function itself (flax apply) is trusted for a single row', 'validation rows are the last ones', 'single precision: tolerance 1e-4 of the scale of the targets']

NORM = [dict(normalize_target=a, unnormalized_inputs=b, subtract_mean_when_normalizing=c)
        for a in (True, False) for b in (None, ['b'], ['a', 'b', 'u', 'w'], ['u', 'w']) for c in (False, True)]


def cases(tier, seed):
    from mc import nnmodel as N
    q = tier == 'quick'
    res = []
    for i, k in enumerate(N.KINDS):
        for j in range(len(NORM)):
            if k.startswith('inn') and j:
                continue
            if k == 'structured-prob' and NORM[j]['normalize_target']:
                continue
            if q and (i + j + seed) % 2 and j not in (0, 9):
                continue
            for s in (0,) if q else (0, 1, 2):
                res.append(dict(kind='units', k=k, j=j, s=s))
        res.append(dict(kind='rows', k=k))
        if not k.startswith('inn') and not k.startswith('structured'):
            res.append(dict(kind='affine', k=k))
        for part in range(5):
            if not q or k in ('ffnn', 'lstm-prob', 'picnn', 'latent', 'inn-full'):
                res.append(dict(kind='params', k=k, q=q, part=part, n=5))
    for tol in (1e-4, -1e9, .4):
        for patience in (1, 3):
            for interval in (1, 2):
                res.append(dict(kind='stopping', tol=tol, patience=patience, interval=interval, n=5 if q else 7))
    for k in ('nn', 'picnn', 'lstm'):
        res.append(dict(kind='batches', k=k))
    for d in ('normal', 'log-normal'):
        res.append(dict(kind='losses', d=d))
    res.append(dict(kind='objectives'))
    for h in range(1, 6):
        res.append(dict(kind='keras', h=h))
    return sorted(res, key=lambda c: c['kind'] != 'params')


def setup():
    import pyforecaster.forecasting_models.neural_models.INN  # noqa
    import pyforecaster.forecasting_models.neural_models.ICNN  # noqa


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


def scaled(x, fit_x, options, kind):
    """normalized inputs from the definition"""
    if kind.startswith('inn'):
        return x.astype(float)
    un = options.get('unnormalized_inputs') or []
    z = x.astype(float).copy()
    for c in x.columns:
        if c not in un:
            sd = np.sqrt(np.mean((fit_x[c] - fit_x[c].mean()) ** 2))
            z[c] = (x[c] - (fit_x[c].mean() if options.get('subtract_mean_when_normalizing') else 0)) / sd
    return z


def raw(m, kind, z):
    """outputs of the network, row by row"""
    base = kind.split('-')[0]
    out = []
    for i in range(len(z)):
        r = z.iloc[i]
        if base in ('nn', 'ffnn'):
            o = m.model.apply(m.pars, np.float32(r.values))
        elif base == 'lstm':
            o = m.model.apply(m.pars, np.float32(r.values)[:, None])
        elif base == 'inn':
            o = None
        else:
            ctrl = ['u', 'w']
            o = m.model.apply(m.pars, np.float32(r[[c for c in z.columns if c not in ctrl]].values), np.float32(r[ctrl].values))
            if base == 'latent':
                o = o[0] if isinstance(o, tuple) else o
        out.append(np.asarray(o).ravel())
    return np.array(out)


def quantile(v, q):
    """linear interpolation between order statistics"""
    v = np.sort(v)
    p = q * (len(v) - 1)
    i = int(np.floor(p))
    j = min(i + 1, len(v) - 1)
    return v[i] + (p - i) * (v[j] - v[i])


def predictions(m, kind, x, fit_x, fit_y, options):
    o = raw(m, kind, scaled(x, fit_x, options, kind)).astype(float)
    mu, sd = fit_y.mean().values, np.sqrt(((fit_y - fit_y.mean()) ** 2).mean()).values
    if not options.get('normalize_target', True):
        mu, sd = 0 * mu, 0 * sd + 1
    if kind == 'structured-prob':
        return o[:, :2], np.sign(o[:, 2:]) * np.sqrt(np.abs(o[:, 2:]))
    if 'prob' in kind:
        return o[:, :2] * sd + mu, np.sqrt(o[:, 2:]) * sd
    return o * sd + mu, None


def close(a, b, scale=1e2):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-5 * scale)


def units(ctx, case):
    import matplotlib.pyplot as plt
    from mc import nnmodel as N
    from scipy.stats import norm
    k, s = case['k'], case['s']
    opt = NORM[case['j']]
    m = N.make(k, **({} if k.startswith('inn') else opt))
    N.fit(m, k, s)
    x, y = N.data(s)
    y = x if k == 'inn' else y
    name = '%s %s' % (k, opt)
    new = x.iloc[[3, 50, 20, 77, 94]].copy()
    new['b'] = [0, 100, -7, 5, 23]
    for part, t in (('training rows', x.iloc[10:20]), ('validation rows', x.iloc[60:66]), ('new', new)):
        before = t.copy()
        got = m.predict(t)
        ctx.step()
        ctx.state('units', k, case['j'], part)
        ctx.ok(before.equals(t) and list(before.dtypes) == list(t.dtypes), 'units:caller', '%s: predict changed the inputs' % name)
        ctx.ok(list(got.columns) == list(y.columns) and got.index.equals(t.index), 'units:labels', '%s: labels %s' % (name, list(got.columns)))
        if not k.startswith('inn'):
            exp, sigma = predictions(m, k, t, x, y, opt)
            ctx.ok(close(got.values, exp), 'units:values', '%s, %s: %s instead of %s' % (name, part, got.values[0], exp[0]))
            if sigma is not None:
                g = m.predict(t, return_sigma=True)[1]
                ctx.ok(close(g.values, sigma), 'units:sigma', '%s: sigma %s instead of %s' % (name, g.values[0], sigma[0]))
        q = np.asarray(m.predict_quantiles(t))
        if k == 'structured-prob':
            pass
        elif 'prob' in k:
            exp = got.values[:, :, None] + sigma[:, :, None] * norm.ppf(N.QV)[None, None, :]
            ctx.ok(close(q, exp), 'units:quantiles', '%s: quantiles %s instead of %s' % (name, q[0, 0], exp[0, 0]))
            ctx.ok(np.all(np.diff(q, axis=2) >= 0), 'units:order', name)
        else:
            v = x.iloc[48:]
            err = y.loc[v.index].values - m.predict(v).values
            exp = np.zeros(q.shape)
            for i, h in enumerate(t.index.hour):
                for st in range(y.shape[1]):
                    for l, p in enumerate(N.QV):
                        exp[i, st, l] = got.values[i, st] + quantile(err[v.index.hour == h, st], p)
            ctx.ok(close(q, exp), 'units:quantiles', '%s: quantiles %s instead of %s' % (name, q[0, 0], exp[0, 0]))
        plt.close('all')
    ctx.trace()


def rows(ctx, case):
    """the forecast of a row does not depend on the other rows of the table"""
    import matplotlib.pyplot as plt
    from mc import nnmodel as N
    k = case['k']
    m = N.fit(N.make(k), k)
    x, _ = N.data(0)
    base = x.iloc[[0, 25, 60, 24, 91, 3]]
    full, fq = m.predict(base).values, np.asarray(m.predict_quantiles(base))
    for n in (1, 2, 3, 6):
        for sub in itertools.permutations(range(6), n) if n < 3 else itertools.combinations(range(6), n):
            sub = list(sub)
            t = base.iloc[sub]
            ctx.step()
            ctx.state('rows', k, tuple(sub))
            p, q = m.predict(t), np.asarray(m.predict_quantiles(t))
            ctx.ok(close(p.values, full[sub], 1) and close(q, fq[sub], 1) and p.index.equals(t.index), 'rows:dependent', '%s: rows %s' % (k, sub))
            plt.close('all')
    ctx.trace()


def affine(ctx, case):
    """forecasts follow the units of the targets"""
    from mc import nnmodel as N
    k = case['k']
    x, y = N.data(0)
    ref = None
    for c in ('one', 'scale', 'shift', 'both'):
        a, b = dict(one=(1, 0), scale=([1000., .01], 0), shift=(1, [-500., 3.]), both=([-2., 5.], [7., -1.]))[c]
        m = N.make(k)
        np.random.seed(5)
        m.fit(x, y * a + b)
        t = x.iloc[30:60]
        p, q = m.predict(t).values, np.asarray(m.predict_quantiles(t))
        s = m.predict(t, return_sigma=True)[1].values if 'prob' in k else None
        ctx.step()
        ctx.state('affine', k, c)
        if ref is None:
            ref = p, q, s
            continue
        if c == 'both':
            continue  # a reflected target is another problem: only checked to run
        sd = y.std().values * a
        ctx.ok(np.max(np.abs(p - (ref[0] * a + b)) / sd) < 2e-2, 'affine:forecast', '%s %s: %s instead of %s' % (k, c, p[0], (ref[0] * a + b)[0]))
        a2, b2, s2 = np.ones(2) * a, np.ones(2) * b, np.ones(2) * sd
        ctx.ok(np.max(np.abs(q - (ref[1] * a2[None, :, None] + b2[None, :, None])) / s2[None, :, None]) < 2e-2, 'affine:quantiles', '%s %s' % (k, c))
        if s is not None:
            ctx.ok(np.max(np.abs(s - ref[2] * a2) / s2) < 2e-2, 'affine:sigma', '%s %s' % (k, c))
    ctx.trace()


ALT = dict(learning_rate=.003, batch_size=12, n_hidden_x=3, n_layers=1, n_epochs=1, q_vect=np.array([.3, .6, .7]), rel_tol=.5, unnormalized_inputs=['b'], normalize_target=False,
           stopping_rounds=1, subtract_mean_when_normalizing=True, val_ratio=.25, stats_step=1, split_heads=True, skip_connection=True, selector=np.array([1, 3]), probabilistic_loss_kind='crps',
           augment_ctrl_inputs=True, init_type='uniform', n_embeddings=3, n_encoder_layers=2, n_decoder_layers=2, n_hidden_y=3, scaling_factor=.5, n_prediction_layers=2, rec_stable=True,
           z_min=np.array([-2., -1.]), z_max=np.array([2., 1.]), distribution='log-normal')


def params(ctx, case):
    """constructed with, set to, cloned: the same network"""
    import inspect
    from mc import nnmodel as N
    k = case['k']
    names = set()
    for c in type(N.make(k)).__mro__:
        if '__init__' in c.__dict__:
            names |= set(inspect.signature(c.__init__).parameters)
    alts = {n: v for n, v in ALT.items() if n in names and n in N.make(k).__dict__}
    if k.startswith('inn'):
        alts = {n: v for n, v in alts.items() if n not in ('n_hidden_x', 'unnormalized_inputs', 'normalize_target', 'subtract_mean_when_normalizing')}
    if k == 'structured-prob':
        alts = {n: v for n, v in alts.items() if n not in ('normalize_target',)}
    if k == 'ffnn-prob':
        alts.pop('selector')
    alts = {n: {n: v} for n, v in alts.items()}
    if 'z_max' in alts:
        alts['z_min'].update(alts.pop('z_max'))
    for i, (n, v) in enumerate(alts.items()):
        if i % case['n'] != case['part']:
            continue
        a = N.make(k, **v)
        c = type(a)(**a.get_params())
        d = N.fit(N.make(k), k, 1)
        d.set_params(**v)
        models = [a, c, d]
        if not case['q']:
            models.append(N.make(k))
            models[-1].set_params(**v)
        obs = [N.observe(N.fit(m, k), k, scen=False) for m in models]
        ctx.step(len(models))
        ctx.state('params', k, n)
        for how, o in zip(('clone', 'set after a fit', 'set'), obs[1:]):
            bad = N.same(obs[0], o, 1e-4)
            ctx.ok(bad == [], 'params:%s' % how.split()[0], '%s: %s by %s: %s' % (k, v, how, bad))
    ctx.trace()


def network(**kw):
    from pyforecaster.forecasting_models.neural_models.base_nn import NN
    return NN(**dict(dict(n_out=1, n_layers=1, n_hidden_x=2, q_vect=[.5], n_scen_fit=2), **kw))


def observable(ctx, m):
    """training is watched through the update and the loss a network is built with"""
    if callable(getattr(m, 'train_step', None)) and callable(getattr(m, 'loss_fn', None)):
        return True
    ctx.count('training not observable')
    return False


def stopping(ctx, case):
    """The early stopping rule as a state machine: weights are a counter of training steps, validation losses are given."""
    ix = pd.date_range('2021-01-01', periods=16, freq='1h')     # 8 training rows, 8 validation rows
    x = pd.DataFrame({'a': np.arange(16.)}, index=ix)
    y = pd.DataFrame({'y': np.arange(16.)}, index=ix)
    interval, tol, patience = case['interval'], case['tol'], case['patience']
    for losses in itertools.product((1., 2., 3.), repeat=case['n']):
        m = network(batch_size=4, stats_step=interval, rel_tol=tol, stopping_rounds=patience, n_epochs=case['n'] * interval // 2 + 1,
                    val_ratio=.5, normalize_target=False)
        if not observable(ctx, m):
            return
        done = []
        left = list(losses)

        def step(pars, opt, xb, yb):
            done.append(len(done) + 1)
            return len(done), opt, 0.

        given = {}                                                # weights -> validation loss

        def loss(pars, xb, yb):
            if float(np.min(np.asarray(yb))) < 8:                 # training rows
                return np.float32(0)
            if pars not in given:
                given[pars] = np.float32(left.pop(0)) if left else np.float32(losses[-1])
            return given[pars]
        m.train_step, m.loss_fn = step, loss
        m.predict_batch = lambda pars, z: np.zeros((len(z), 1), np.float32)
        m.fit(x, y)
        # the specification
        total = 2 * m.n_epochs
        seen, weights, expect, k = [np.inf], [None], None, 0
        for k in range(total):
            if k % interval == 0 and k > 0:
                e = len(seen) - 1
                seen.append(losses[e] if e < len(losses) else losses[-1])
                weights.append(k + 1)
                if len(seen) > 2:
                    gain = (seen[-2] - seen[-1]) / (abs(seen[-2]) + 1e-6)
                    since = len(seen) - 1 - max(i for i, l in enumerate(seen) if l == min(seen))
                    if gain < tol or (k > patience and since > patience):
                        break
        expect = k + 1
        if len(seen) > 2 and seen[-1] > seen[-2]:
            expect = weights[-2]
        ctx.step(len(done))
        ctx.state('stopping', tuple(seen), k, expect)
        ctx.trace()
        ctx.ok(len(done) == k + 1, 'stopping:length', 'losses %s tol %s patience %s interval %s: %d training steps instead of %d' % (losses, tol, patience, interval, len(done), k + 1))
        ctx.ok(m.pars == expect, 'stopping:weights', 'losses %s tol %s patience %s interval %s: weights of step %s instead of %s' % (losses, tol, patience, interval, m.pars, expect))
        ctx.ok(sorted(given) == weights[1:], 'stopping:evaluations', 'losses %s interval %s: weights of the steps %s evaluated, expected %s' % (losses, interval, sorted(given), weights[1:]))


def batches(ctx, case):
    """each epoch presents each training row at most once, with its own targets, and no validation row"""
    from mc import nnmodel as N
    k = case['k']
    for rows, batch, ratio in itertools.product((30, 48), (None, 5, 7, 24), (None, .5, .2)):
        x, y = N.data(0, rows, ints=False)
        y = x[['a', 'w']].rename(columns={'a': 'y0', 'w': 'y1'})
        m = N.make(k, batch_size=batch, val_ratio=ratio, n_epochs=2, stats_step=3, normalize_target=False, unnormalized_inputs=list(x.columns))
        if not observable(ctx, m):
            return
        n_tr = rows - int(rows * (ratio or 0))
        seen, vals = [], []

        def arr(b):
            if isinstance(b, (list, tuple)):
                return np.hstack([np.asarray(i).reshape(len(i), -1) for i in b])
            return np.asarray(b).reshape(len(b), -1)
        order = ['a', 'b', 'u', 'w']

        def step(pars, opt, xb, yb):
            seen.append((arr(xb), np.asarray(yb)))
            return pars, opt, 0.

        def loss(pars, xb, yb):
            vals.append((arr(xb), np.asarray(yb)))
            return np.float32(1 / len(vals))
        m.train_step, m.loss_fn = step, loss
        m.fit(x, y)
        size = batch or n_tr // 10
        per = n_tr // size
        ctx.step(len(seen))
        ctx.trace()
        ctx.state('batches', k, rows, batch, ratio)
        name = '%s rows=%s batch=%s validation=%s' % (k, rows, batch, ratio)
        ctx.ok(len(seen) == 2 * per and all(len(a) == size for a, _ in seen), 'batches:number', '%s: %d batches' % (name, len(seen)))
        train = {round(v, 6): i for i, v in enumerate(x.a.values[:n_tr])}
        for ep in range(2):
            ids = []
            for xb, yb in seen[ep * per:(ep + 1) * per]:
                ctx.ok(np.allclose(xb[:, 0], yb[:, 0], atol=1e-5) and np.allclose(xb[:, order.index('w')], yb[:, 1], atol=1e-5), 'batches:pairs', '%s: inputs and targets of different rows' % name)
                ids += [train.get(round(float(v), 6)) for v in yb[:, 0]]
            ctx.ok(None not in ids, 'batches:validation', '%s: rows outside of the training set' % name)
            ctx.ok(len(set(ids)) == len(ids), 'batches:repeated', '%s: a row is presented twice per epoch' % name)
        held = set(np.round(x.a.values[n_tr:] if ratio else x.a.values, 6))
        judged = 0
        for xb, yb in vals:
            ctx.ok(np.allclose(xb[:, 0], yb[:, 0], atol=1e-5), 'batches:pairs', '%s: validation' % name)
            rows_ = [round(float(v), 6) for v in yb[:, 0]]
            ctx.ok(all(v in held for v in rows_) or all(v in train for v in rows_), 'batches:validation rows', '%s: validation loss on other rows' % name)
            judged += all(v in held for v in rows_)
        ctx.ok(judged > 0 or not vals or 2 * per <= 3, 'batches:validation rows', '%s: no loss of validation rows' % name)


def losses(ctx, case):
    from scipy import stats
    from pyforecaster.forecasting_models.neural_models.base_nn import probabilistic_loss
    d = case['d']
    for mu, s in itertools.product((.5, 1., 2., 4., 8.), (.3, .5, 1., 2., 3.)):
        if d == 'normal':
            dist = stats.norm(mu - 2, s)
            m0 = mu - 2
        else:
            # given by mean and standard deviation
            sl = np.sqrt(np.log(1 + s ** 2 / mu ** 2))
            dist = stats.lognorm(sl, scale=mu / np.sqrt(1 + s ** 2 / mu ** 2))
            m0 = mu
        grid = np.linspace(dist.ppf(1e-9), dist.ppf(1 - 1e-9), 200001) if d == 'normal' else np.exp(np.linspace(np.log(dist.ppf(1e-9)), np.log(dist.ppf(1 - 1e-9)), 200001))
        for y in (.05, .4, .9, 1.7, 3., 6., 11.) if d != 'normal' else (-9., -3., -1., 0., 1., 3., 9.):
            ctx.step()
            ctx.trace()
            ctx.state('loss', d, mu, s, y)
            # the jump of the indicator lies on a grid point
            g = np.insert(grid, np.searchsorted(grid, y), [y * (1 - 1e-9 * np.sign(y)), y])
            F = dist.cdf(g)
            exp = np.trapezoid((F - (g >= y)) ** 2, g) + max(0, g[0] - y) + max(0, y - g[-1])
            got = float(probabilistic_loss(np.array([m0]), np.array([y]), np.array([s ** 2]), kind='crps', distribution=d))
            ctx.ok(abs(got - exp) < 2e-3 * (1 + abs(exp)), 'loss:crps', '%s mean %s sd %s observation %s: %s instead of %s' % (d, m0, s, y, got, exp))
            if d == 'normal':
                got = float(probabilistic_loss(np.array([m0]), np.array([y]), np.array([s ** 2]), kind='maximum_likelihood', distribution=d))
                exp = -2 * dist.logpdf(y) - np.log(2 * np.pi)
                ctx.ok(abs(got - exp) < 1e-4 * (1 + abs(exp)), 'loss:likelihood', '%s %s %s: %s instead of %s' % (m0, s, y, got, exp))
    # mean over observations, one dimensional and tables
    for kind in ('crps', 'maximum_likelihood'):
        mu, y, v = np.array([[1., 2.], [3., 4.]]), np.array([[2., 1.], [1., 6.]]), np.array([[1., .5], [2., 3.]])
        one = [float(probabilistic_loss(mu[i, j:j + 1], y[i, j:j + 1], v[i, j:j + 1], kind=kind, distribution=d)) for i in range(2) for j in range(2)]
        got = float(probabilistic_loss(mu, y, v, kind=kind, distribution=d))
        ctx.ok(abs(got - np.mean(one)) < 1e-5, 'loss:mean', '%s %s' % (kind, d))
    # losses used in training: mean squared error; second half of the outputs are variances
    from pyforecaster.forecasting_models.neural_models import base_nn as B
    o = np.array([[1., 2., .5, 2.], [0., -1., 1., 4.]], np.float32)
    t = np.array([[0., 2.5], [1., 1.]], np.float32)
    f = lambda p, z: o
    ctx.ok(abs(float(B.loss_fn(None, None, t, model=lambda p, z: o[:, :2])) - np.mean((o[:, :2] - t) ** 2)) < 1e-5, 'loss:mse', '')
    for kind in ('crps', 'maximum_likelihood'):
        ctx.ok(abs(float(B.probabilistic_loss_fn(None, None, t, model=f, kind=kind)) - float(probabilistic_loss(o[:, :2], t, o[:, 2:], kind=kind))) < 1e-5, 'loss:halves', kind)


def objectives(ctx, case):
    """quantiles of the objective of structured probabilistic networks"""
    from scipy import stats
    from mc import nnmodel as N
    from sklearn.preprocessing import StandardScaler
    x, y = N.data(0)
    for dist in ('normal', 'log-normal'):
        m = N.make('structured-prob', distribution=dist)
        m.pars = 1
        m.target_columns = y.columns
        m.input_scaler = StandardScaler(with_mean=False).set_output(transform='pandas').fit(x)
        for mean, var in itertools.product((1., 4., 9.), (.25, 1., 9.)):
            # objective = mean(y^2): constant outputs sqrt(mean)
            m.objective = lambda p, u: np.mean(np.asarray(p) ** 2, axis=1)
            m.predict_batch = lambda pars, z, mean=mean, var=var: np.tile([[np.sqrt(mean), np.sqrt(mean), var]], (len(z[0]), 1)).astype(np.float64)
            q = np.asarray(m.predict_quantiles(x.iloc[:3]))
            ctx.step()
            ctx.trace()
            ctx.state('objective', dist, mean, var)
            if dist == 'normal':
                exp = mean + np.sqrt(var) * stats.norm.ppf(N.QV)
            else:
                s = np.sqrt(np.log(1 + var / mean ** 2))
                exp = stats.lognorm(s, scale=mean / np.sqrt(1 + var / mean ** 2)).ppf(N.QV)
            ctx.ok(q.shape == (3, 1, len(N.QV)) and np.allclose(q, exp[None, None, :], rtol=1e-4), 'objective:quantiles', '%s mean %s variance %s: %s instead of %s' % (dist, mean, var, q[0].ravel(), exp))
            p, o, s = m.predict(x.iloc[:3], return_obj=True, return_sigma=True)
            ctx.ok(np.allclose(p.values, np.sqrt(mean)) and np.allclose(o.values, mean) and np.allclose(s.values, np.sqrt(var)), 'objective:outputs', '%s' % dist)


class Recorder:
    """stands in for the Keras model: remembers what it is trained on; its forecast is the last value plus the first exogenous input"""
    def __init__(self, horizon):
        self.h = horizon

    def fit(self, x, y, validation_data=None, **kw):
        self.x, self.y, self.val, self.kw = x, y, validation_data, kw

    def predict(self, x):
        return x[0][:, -1, :] + np.asarray(x[1])[:, :1] + 10. * np.arange(self.h)[None, :]


def keras(ctx, case):
    from pyforecaster.forecasting_models.neural_models.LSTM_bidir import LSTM_Forecaster
    h = case['h']
    for p, extra, split, pos in itertools.product((1, 2, 3), (0, 1, 4, 9), (0, .2, .5), (0, 2)):
        n = h + p + extra
        ix = pd.date_range('2021-01-01', periods=n, freq='1h')
        cols = {'e1': np.arange(n) ** 1.5, 'e2': np.arange(n) * 3. % 7}
        df = pd.DataFrame(cols, index=ix)
        df.insert(pos, 'y', 100 + (np.arange(n) * 13 % 17) * 2.)
        before = df.copy()
        m = LSTM_Forecaster('y', h, pred_horizon=p, q_vect=[.5])
        m.model = Recorder(p)
        m.fit(df, val_split=split)
        ctx.step()
        ctx.trace()
        ctx.state('keras', h, p, extra, split, pos)
        name = 'history %d horizon %d rows %d split %s' % (h, p, n, split)
        z = (df - df.mean()) / np.sqrt(((df - df.mean()) ** 2).mean()).replace(0, 1)
        total = n - h - p + 1
        cut = int((1 - split) * total)
        seq = np.concatenate([m.model.x[0], m.model.val[0][0]])
        ex = np.concatenate([m.model.x[1], m.model.val[0][1]])
        tg = np.concatenate([m.model.y, m.model.val[1]])
        ctx.ok(len(m.model.x[0]) == cut and len(m.model.x[1]) == cut and len(m.model.y) == cut, 'keras:split', name)
        es = np.array([z.y.values[i:i + h] for i in range(total)])[:, :, None]
        ee = np.array([z[['e1', 'e2']].values[i + h - 1] for i in range(total)])
        et = np.array([z.y.values[i + h:i + h + p] for i in range(total)])
        ctx.ok(seq.shape == es.shape and np.allclose(seq, es), 'keras:sequences', name)
        ctx.ok(ex.shape == ee.shape and np.allclose(ex, ee), 'keras:exogenous', '%s: exogenous inputs of other times' % name)
        ctx.ok(tg.shape == et.shape and np.allclose(tg, et), 'keras:targets', '%s: targets of other times' % name)
        pr = m.predict(df)
        mu, sd = df.y.mean(), np.sqrt(((df.y - df.y.mean()) ** 2).mean())
        exp = np.array([[(z.y.values[i - 1] + z.e1.values[i - 1] + 10 * j) * sd + mu for j in range(p)] for i in range(h, n)])
        ctx.ok(pr.index.equals(df.index[h:]) and list(pr.columns) == ['y_%d' % (i + 1) for i in range(p)], 'keras:labels', name)
        ctx.ok(pr.shape == exp.shape and np.allclose(pr.values, exp), 'keras:forecast', '%s: %s instead of %s' % (name, pr.values[:1], exp[:1]))
        ctx.ok(before.equals(df), 'keras:caller', name)
        # the scaling is the one of the training data
        other = df * 1.5 + 3
        pr = m.predict(other)
        zo = (other.y.values - mu) / sd
        zx = (other.e1.values - df.e1.mean()) / np.sqrt(((df.e1 - df.e1.mean()) ** 2).mean())
        exp = np.array([[(zo[i - 1] + zx[i - 1] + 10 * j) * sd + mu for j in range(p)] for i in range(h, n)])
        ctx.ok(np.allclose(pr.values, exp), 'keras:new data', name)
