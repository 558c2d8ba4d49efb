"""C27: partially convex networks: every sign pattern of the weight tensors of small networks (after the library's own reprojection) and every prefix of short trainings; convexity, monotonicity and bounds are checked on all segments of a grid of controls."""
import itertools
from functools import partial
import numpy as np
import pandas as pd

PID = 'C27'
PREFORK = True
JAX_CACHE = True
BOUNDS = dict(quick='weights: all sign patterns of the weight tensors (up to 2^16) of 12 network variants with 1-3 layers, 1-2 controls; all segments of a 9-point (1 control) or 5x5 (2 controls) grid x 2-3 covariates; trainings: 9 variants x prefixes of 1..4 steps x learning rate 0.5 x re-fit, and trainings stopped at step 2, 4 and 6 of epochs of 4 batches',
              thorough='up to 2^19 patterns per variant, prefixes up to 8 steps')
ASSUMPTIONS = ['layer normalisation is off', 'covariates fixed along a segment', 'tolerance 2e-5 of the largest output (single precision)']

VARIANTS = {
    # class, parameters, what holds for the outputs as functions of the controls
    'picnn': ('PICNN', {}, 'convex'),
    'picnn-aug': ('PICNN', dict(augment_ctrl_inputs=True), 'convex'),
    'picnn-prob': ('PICNN', dict(probabilistic=True, n_latent=1), 'convex'),
    'picnn-uniform': ('PICNN', dict(init_type='uniform'), 'convex'),
    'picnn-bounds': ('PICNN', dict(z_min=[-1., 0.], z_max=[1., 3.]), 'quasi+bounds'),
    'rec': ('RecStablePICNN', {}, 'convex'),
    'rec-aug': ('RecStablePICNN', dict(augment_ctrl_inputs=True), 'convex'),
    'sigmoid': ('PIQCNNSigmoid', {}, 'monotone'),
    'sigmoid-bounds': ('PIQCNNSigmoid', dict(z_min=[-1., 0.], z_max=[1., 3.]), 'monotone+bounds'),
    'structured': ('StructuredPICNN', {}, 'monotone'),
    'piq': ('PIQCNN', {}, 'zero'),
    'piq-aug': ('PIQCNN', dict(augment_ctrl_inputs=True), 'zero'),
}


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for v in VARIANTS:
        for n, l in ((1, 1), (1, 2), (2, 2), (2, 1)) + (() if q and v not in ('picnn', 'rec-aug', 'sigmoid') else ((1, 3),)):
            res.append(dict(kind='signs', v=v, n=n, l=l, max=15 if q else 19))
    for n in (1, 2):
        for l in (1, 2):
            for aug in (False, True):
                res.append(dict(kind='latent', n=n, l=l, aug=aug, max=14 if q else 18))
    for v in VARIANTS:
        res.append(dict(kind='training', v=v, steps=3 if q else 8))
    for v in ('picnn', 'rec-aug', 'sigmoid', 'picnn-aug'):
        for norm in (True, False):
            res.append(dict(kind='controls', v=v, norm=norm))
    for l in (1, 2):
        for prob in (False, True):
            for half in (0, 1):
                res.append(dict(kind='causal', l=l, prob=prob, half=half, q=q))
    return res


def setup():
    import pyforecaster.forecasting_models.neural_models.ICNN  # noqa


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def build(v, n, l, **kw):
    from pyforecaster.forecasting_models.neural_models import ICNN
    cls, par, _ = VARIANTS[v]
    par = {k: (np.array(x, np.float32) if k.startswith('z_') else x) for k, x in par.items()}
    args = dict(dict(n_out=2, n_layers=l, n_hidden_x=1, n_latent=2, optimization_vars=['u%d' % i for i in range(n)]), **par)
    if cls == 'StructuredPICNN':
        args['objective_fun'] = objective
    args.update(kw)
    return getattr(ICNN, cls)(**args)


def objective(y, u):
    return y.sum() + u.sum()


def patterns(p0, cap):
    """All assignments of {positive, mixed/negative} values to the tensors of the network (deterministic subset if more than 2^cap)."""
    import jax
    leaves, tree = jax.tree_util.tree_flatten(p0)
    k = len(leaves)
    ids = np.arange(2 ** min(k, cap))
    if k > cap:
        # the remaining tensors repeat the bits of the first ones (all patterns of the first cap tensors)
        bits = np.array([(ids >> (i % cap)) & 1 if i < cap else ((ids >> (i % cap)) ^ (ids >> ((i * 7 + 3) % cap))) & 1 for i in range(k)])
    else:
        bits = np.array([(ids >> i) & 1 for i in range(k)])
    out = []
    for i, a in enumerate(leaves):
        m = np.arange(a.size).reshape(a.shape)
        pos = .4 + .3 * ((m + i) % 3)
        neg = -.9 * np.where((m + i) % 3 == 2, -.5, 1.)
        out.append(np.where(bits[i].reshape((-1,) + (1,) * a.ndim), neg, pos).astype(np.float32))
    return jax.tree_util.tree_unflatten(tree, out), len(ids)


def grid(n):
    g = np.linspace(-3, 3, 9 if n == 1 else 5).astype(np.float32)
    return np.array(list(itertools.product(g, repeat=n)), np.float32)


def triples(Y):
    """indices (a, m, b, t): Y[m] = (1-t) Y[a] + t Y[b]"""
    res = []
    for a, b in itertools.combinations(range(len(Y)), 2):
        for m in range(len(Y)):
            if m in (a, b):
                continue
            d = Y[b] - Y[a]
            k = int(np.argmax(np.abs(d)))
            t = (Y[m] - Y[a])[k] / d[k]
            if 0 < t < 1 and np.allclose(Y[a] + t * d, Y[m], atol=1e-6):
                res.append((a, m, b, t))
    return res


def judge(ctx, key, msg, f, Y, prop, bounds=None):
    """f: (..., n_points, n_outputs)"""
    sc = 2e-5 * (1 + np.max(np.abs(f), axis=(-1, -2), keepdims=False)[..., None])
    ctx.ok(np.all(np.isfinite(f)), key + ':finite', msg)
    if 'bounds' in prop:
        ctx.ok(np.all(f >= bounds[0] - 1e-5) and np.all(f <= bounds[1] + 1e-5), key + ':bounds', '%s: outside of %s' % (msg, bounds))
    tr = triples(Y)
    if 'convex' in prop or 'quasi' in prop or 'zero' in prop:
        for a, m, b, t in (tr if 'zero' not in prop else []):
            lim = (1 - t) * f[..., a, :] + t * f[..., b, :] if 'convex' in prop else np.maximum(f[..., a, :], f[..., b, :])
            bad = f[..., m, :] > lim + sc
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                ctx.ok(False, key + (':convex' if 'convex' in prop else ':quasi'), '%s pattern %s: f(%s)=%s f(%s)=%s f(%s)=%s' % (msg, i, Y[a], f[i[:-1] + (a, i[-1])], Y[m], f[i[:-1] + (m, i[-1])], Y[b], f[i[:-1] + (b, i[-1])]))
                return
        ctx.ok(True, key, msg)
    if 'zero' in prop:
        z = int(np.argwhere(np.all(Y == 0, axis=1))[0, 0])
        ctx.ok(np.all(f >= f[..., [z], :] - sc[..., None, :]), key + ':zero', '%s: outputs below those without controls' % msg)
    if 'monotone' in prop:
        for a, b in itertools.permutations(range(len(Y)), 2):
            if np.all(Y[a] <= Y[b]):
                bad = f[..., a, :] > f[..., b, :] + sc
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    ctx.ok(False, key + ':monotone', '%s pattern %s: f(%s)=%s > f(%s)=%s' % (msg, i, Y[a], f[i[:-1] + (a, i[-1])], Y[b], f[i[:-1] + (b, i[-1])]))
                    return
        ctx.ok(True, key, msg)
    ctx.step(f.size)


def evaluate(model_fn, P, n_pat, X, Y, chunk=8192):
    """outputs (n_pat, n_x, n_y, n_out)"""
    import jax
    g = jax.jit(lambda P: jax.vmap(lambda p: jax.vmap(lambda x: jax.vmap(lambda y: model_fn(p, x, y))(Y))(X))(P))
    out = []
    for s in range(0, n_pat, chunk):
        out.append(np.asarray(g(jax.tree_util.tree_map(lambda a: a[s:s + chunk], P))))
    return np.concatenate(out)


def signs(ctx, case):
    import jax
    from pyforecaster.forecasting_models.neural_models.neural_utils import reproject_weights
    v, n, l = case['v'], case['n'], case['l']
    prop = VARIANTS[v][2]
    m = build(v, n, l)
    X = np.array([[-1.], [1.5]], np.float32)
    Y = grid(n)
    p0 = m.init_arch(m.model, 1, n)
    p0 = jax.tree_util.tree_map(np.asarray, p0)
    b = (np.array(VARIANTS[v][1].get('z_min', [0, 0])), np.array(VARIANTS[v][1].get('z_max', [0, 0])))
    fn = lambda p, x, y: m.model.apply(p, x, y)
    # at initialisation
    f = evaluate(fn, jax.tree_util.tree_map(lambda a: a[None], p0), 1, X, Y)
    judge(ctx, 'init:' + v, '%s initial weights' % case, f, Y, prop, b)
    P, k = patterns(p0, case['max'])
    P = reproject_weights(P, rec_stable=m.rec_stable, monotone=m.monotone) if m.reproject else P
    f = evaluate(fn, P, k, X, Y)
    ctx.trace(k)
    ctx.count('weight patterns', k)
    for i in range(0, k, 64):
        ctx.state('signs', v, n, l, i)
    judge(ctx, 'weights:' + v, str(case), f, Y, prop, b)
    # the controls matter (otherwise the check is vacuous)
    ctx.ok(np.mean(np.ptp(f, axis=2) > 1e-3) > .05, 'weights:constant:' + v, '%s: outputs do not depend on the controls' % case)
    # the free weights are not restricted: both signs survive in the covariate branch
    flat = jax.tree_util.tree_flatten_with_path(P)[0]
    neg = [jax.tree_util.keystr(path) for path, a in flat if np.any(np.asarray(a) < 0)]
    ctx.ok(l == 1 or any('u_dense' in s for s in neg), 'weights:free:' + v, '%s: only %s can be negative' % (case, neg))


def latent(ctx, case):
    import jax
    from flax import linen as nn
    from pyforecaster.forecasting_models.neural_models import ICNN
    from pyforecaster.forecasting_models.neural_models.neural_utils import reproject_weights
    n, l = case['n'], case['l']
    m = ICNN.LatentStructuredPICNN(n_out=2, n_layers=l, n_hidden_x=1, optimization_vars=['u%d' % i for i in range(n)], n_embeddings=n, n_encoder_layers=l, n_decoder_layers=l, augment_ctrl_inputs=case['aug'])
    p0 = jax.tree_util.tree_map(np.asarray, m.init_arch(m.model, 1, n))
    X = np.array([[-1.], [1.5]], np.float32)
    Y = grid(n)
    for name, method, prop in (('encoder', 'encode', 'convex'), ('prediction', 'latent_pred', 'convex'), ('decoder', 'decode', 'convex' if case['aug'] else 'convex+monotone')):
        sub = [k for k in p0['params'] if {'encoder': 'encoder', 'prediction': 'picnn', 'decoder': 'decoder'}[name] in k]
        ctx.ok(len(sub) == 1, 'latent:names', '%s %s' % (name, list(p0['params'])))
        Q, k = patterns({s: p0['params'][s] for s in sub}, case['max'])
        P = {'params': {a: (Q[a] if a in Q else jax.tree_util.tree_map(lambda z: np.broadcast_to(z, (k,) + z.shape), p0['params'][a])) for a in p0['params']}}
        P = reproject_weights(P, rec_stable=m.rec_stable, monotone=m.monotone)
        fn = lambda p, x, y: m.model.apply(p, x, y, method=method)
        f = evaluate(fn, P, k, X, Y)
        ctx.trace(k)
        ctx.count('weight patterns', k)
        for i in range(0, k, 64):
            ctx.state('latent', name, n, l, case['aug'], i)
        judge(ctx, 'latent:' + name, '%s %s' % (case, name), f, Y, prop)
    # the three outputs are the compositions of the parts
    p = p0
    for x in X:
        for y in Y:
            z, e, r = m.model.apply(p, x, y)
            e1 = m.model.apply(p, x, y, method='encode')
            ctx.eq(np.asarray(e), np.asarray(e1), 'latent:composition', '%s embedding' % case, tol=1e-5)
            ctx.eq(np.asarray(z), np.asarray(ICNN.latent_pred(p, m.model, x, e1)), 'latent:composition', '%s prediction' % case, tol=1e-5)
            ctx.eq(np.asarray(r), np.asarray(ICNN.decode(p, m.model, x, e1)), 'latent:composition', '%s reconstruction' % case, tol=1e-5)
            ctx.eq(np.asarray(z), np.asarray(m.predict_batch(p, [x[None], y[None]]))[0], 'latent:composition', '%s predict_batch' % case, tol=1e-5)


def tables(n, rows=32, seed=0):
    r = np.random.RandomState(seed)
    ix = pd.date_range('2021-01-01', periods=rows, freq='1h')
    u = {'u%d' % i: r.randn(rows) * 2 + i for i in range(n)}
    x = pd.DataFrame(dict({'x': r.randn(rows) * 3 + 5}, **u), index=ix)
    s = sum(x[c] for c in u)
    # concave and non monotone in the controls: training pulls the weights out of the admissible region
    y = pd.DataFrame({'y0': -s ** 2 + x.x, 'y1': -3 * s + 10.}, index=ix)
    return x, y


def training(ctx, case):
    v = case['v']
    prop = VARIANTS[v][2].replace('+bounds', '')
    x, y = tables(2)
    G = grid(2) * 2
    names = ['u0', 'u1']
    # one batch per epoch up to the last one, and four batches per epoch stopped at each step within the second or third epoch
    for stats, batch, tol in ((1, 24, -1e9), (1000, 24, -1e9), (1, 6, 1e9), (2, 6, 1e9), (3, 6, 1e9)):
        for steps in range(1, case['steps'] + 1) if batch == 24 else (3,):
            for again in ((False, True) if steps == 2 and stats == 1 and batch == 24 else (False,)):
                np.random.seed(7)
                m = build(v, 2, 2, learning_rate=.5, batch_size=batch, n_epochs=steps, stats_step=stats, rel_tol=tol, stopping_rounds=100, val_ratio=.25, n_hidden_x=3, n_scen_fit=4, **({} if 'prob' in v else dict(n_latent=3 if 'piq' not in v else 2)))
                m.fit(x, y)
                if again:
                    x2, y2 = tables(2, seed=1)
                    m.fit(x2, y2)
                ctx.step(steps)
                ctx.trace()
                ctx.state('training', v, stats, batch, steps, again)
                fs = []
                for i in (0, 9, 30):
                    t = pd.concat([x.iloc[[i]]] * len(G))
                    t[names] = G
                    out = m.predict(t, return_sigma=True) if 'prob' in v else m.predict(t)
                    fs.append(np.hstack([a.values for a in out]) if isinstance(out, tuple) else out.values)
                f = np.array(fs)
                if 'prob' in v:
                    f = np.concatenate([f[..., :2], f[..., 2:] ** 2], axis=-1)  # the variance is convex
                sc = np.max(np.abs(f))
                ctx.ok(np.isfinite(sc), 'training:finite', '%s %s' % (case, steps))
                judge(ctx, 'training:' + v, '%s statistics %s batch %s epochs %s refit %s' % (case, stats, batch, steps, again), f, G, prop)


def controls(ctx, case):
    """optimisation of the controls: consistent results, for any order of the controls, on the weights of the last fit"""
    import jax.numpy as jnp
    v = case['v']
    x, y = tables(2)
    obj = lambda yh, u: jnp.mean(yh) + .1 * jnp.sum(u ** 2)
    norm = case['norm']
    for order, cols in ((['u0', 'u1'], ['x', 'u0', 'u1']), (['u1', 'u0'], ['u0', 'x', 'u1'])):
        np.random.seed(7)
        m = build(v, 2, 2, learning_rate=.05, batch_size=24, n_epochs=2, val_ratio=.25, n_hidden_x=3, n_scen_fit=4, optimization_vars=order, unnormalized_inputs=None if norm else ['u0', 'u1'])
        X = x[cols]
        m.fit(X, y)
        row = X.iloc[[11]]
        keep = row.copy()
        opt = []
        for n_iter, rec in ((20, True), (20, False)):
            u, t, yo, val = m.optimize(row, obj, n_iter=n_iter, rel_tol=-1e9, recompile_obj=rec)
            opt.append(u)
            ctx.step()
            ctx.trace()
            ctx.state('controls', v, tuple(order), norm, tuple(cols), n_iter, rec)
            ctx.ok(row.equals(keep), 'controls:changed', str(case))
            ctx.ok(list(t.columns) == cols and t.index.equals(row.index) and np.allclose(t[order].values.ravel(), u), 'controls:table', '%s %s %s' % (case, order, t))
            ctx.ok(np.allclose(t['x'], row['x'], rtol=1e-4), 'controls:covariates', '%s %s: %s became %s' % (case, order, row['x'].values, t['x'].values))
            ctx.ok(np.allclose(yo.values, m.predict(t).values, rtol=1e-3, atol=1e-3), 'controls:prediction', str(case))
            # the reported value is the objective of the network at the controls of the last iteration: close to that of the returned ones
        ctx.ok(np.allclose(opt[0], opt[1], atol=1e-4), 'controls:compiled', '%s %s: %s with, %s without recompiling' % (case, order, opt[0], opt[1]))
        (xx, yy), _ = m.get_normalized_inputs(row)
        v0 = float(obj(m.predict_batch(m.pars, [xx, yy]), yy))
        (x1, y1), _ = m.get_normalized_inputs(t)
        v1 = float(obj(m.predict_batch(m.pars, [x1, y1]), y1))
        ctx.ok(v1 <= v0 + 1e-4 * (1 + abs(v0)), 'controls:worse', '%s %s: objective from %s to %s' % (case, order, v0, v1))
    # weights of the last fit
    m.optimize(row, obj, n_iter=20, rel_tol=-1e9, recompile_obj=False)
    x2, y2 = tables(2, seed=4)
    m.fit(x2[cols], -y2)
    a = m.optimize(row, obj, n_iter=20, rel_tol=-1e9, recompile_obj=False)[0]
    b = m.optimize(row, obj, n_iter=20, rel_tol=-1e9, recompile_obj=True)[0]
    ctx.ok(np.allclose(a, b, atol=1e-4), 'controls:stale', '%s: after a new fit %s without recompiling, %s with' % (case, a, b))


def causal(ctx, case):
    """training with a causality matrix: the loss is the squared error plus the forbidden sensitivities"""
    import jax
    import jax.numpy as jnp
    l, prob = case['l'], case['prob']
    n = 2
    mats = [M for M in itertools.product((0, 1), repeat=4)]
    mats = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0), (1, 1, 0, 1), (1, 1, 1, 1)] if case['q'] else mats
    for M in mats[case['half']::2]:
        cd = pd.DataFrame(np.array(M).reshape(2, 2), index=['u0', 'u1'], columns=['y0', 'y1'])
        m = build('picnn-prob' if prob else 'picnn', n, l, causal_df=cd)
        p = m.init_arch(m.model, 1, n)
        r = np.random.RandomState(2)
        x, u, y = r.randn(6, 1).astype(np.float32), r.randn(6, 2).astype(np.float32), r.randn(6, 2).astype(np.float32)
        got = float(m.loss_fn(p, [x, u], y))
        if M == mats[case['half']]:
            f = jax.jit(lambda xx, uu: m.model.apply(p, xx, uu))
            df = jax.jit(jax.jacrev(lambda uu, xx: m.model.apply(p, xx, uu)))
            out = np.array([np.asarray(f(xx, uu), float) for uu, xx in zip(u, x)])
            J = np.array([np.asarray(df(uu, xx), float) for uu, xx in zip(u, x)])
        forb = 1. - np.array(M, float).reshape(2, 2).T  # (outputs, controls)
        if prob:
            forb = np.vstack([forb, forb])
            base = np.mean((out[:, :2] - y) ** 2 / out[:, 2:] + np.log(out[:, 2:]))
        else:
            base = np.mean((out - y) ** 2)
        exp = base + np.mean(np.abs(J * forb))
        ctx.step()
        ctx.trace()
        ctx.state('causal', l, prob, M)
        ctx.ok(abs(got - exp) <= 1e-4 * (1 + abs(exp)), 'causal:loss', '%s matrix %s: loss %s expected %s' % (case, M, got, exp))
    if case['half']:
        return
    # and the training runs
    xt, yt = tables(2)
    m = build('picnn-prob' if prob else 'picnn', 2, l, causal_df=cd, batch_size=24, n_epochs=1, n_scen_fit=4)
    m.fit(xt, yt)
    ctx.ok(np.all(np.isfinite(m.predict(xt).values)), 'causal:fit', str(case))
