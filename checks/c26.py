"""C26: invertible layers and networks: every combination of width, activation, weights of all signs and extreme sizes, and all inputs of a product grid that straddles the branch thresholds; both compositions are compared with the identity and every (output, input) pair is checked for causality."""
import itertools
from functools import partial
import numpy as np
import pandas as pd

PID = 'C26'
PREFORK = True
JAX_CACHE = True
BOUNDS = dict(quick='activations: 4 + 9 parameterisations x ~60 grid points (all thresholds +-1ulp); layers: widths 1..4 x 9 activations x 2 kinds x all weight patterns in {-100, 0, 0.7}^n (w<=3; 8 patterns for w=4) x 3 biases x 1-2 scalings x 5^w..7^w inputs; networks of 1..4 layers, widths 1..4; trained networks in 3 modes x position of the exogenous column',
              thorough='finer grids, every weight pattern for w=4, networks to 6 layers')
ASSUMPTIONS = ['single precision: the compositions equal the identity up to 2e-5 of the largest value of the vector times the slope of the activation', 'layer normalisation is off (it is not invertible)',
               'softplus pre-activations not below -9, logarithmic activations not above exp(12): documented clips']

LIN = [-1e5, -2000., -960., -500., -100., -10.5, -10., -9.5, -5., -1., -1e-3, 0., 1e-3, .5, 1., 5., 9.5, 10., 10.5, 100., 500., 960., 2000., 1e5]


def cases(tier, seed):
    q = tier == 'quick'
    res = [dict(kind='scalar', act='linloglin', par=[k]) for k in (1, 2, 10, 50)]
    res += [dict(kind='scalar', act='invcondiff', par=[a, c]) for a in (.5, 1, 2.) for c in (.5, 1, 3.)]
    res += [dict(kind='scalar', act='softplus', par=[])]
    for w in (1, 2, 3, 4):
        for a in ACTS:
            for pl in ((False, True) if a == 'linloglin' else (False,)):
                for s in (.1, 1., 3.) if a in ('linloglin', 'leaky') and not q else (.1, 1.) if a in ('linloglin', 'leaky', 'softplus') or not q else (1.,):
                    res.append(dict(kind='layer', w=w, act=a, last=pl, s=s, full=not q))
    for w in (1, 2, 3, 4):
        for l in range(1, 5 if q else 7):
            res.append(dict(kind='stack', w=w, l=l, s=.1 if l % 2 else 1.))
    for w in (1, 2, 3):
        for ne in (0, 1, 2):
            res.append(dict(kind='embedding', w=w, ne=ne))
    for mode in ('none', 'full', 'quasi'):
        for exo in (None, 0, 1, 2):
            if mode == 'none' and exo is not None:
                continue
            for ep in (2,) if q else (1, 3):
                res.append(dict(kind='trained', mode=mode, exo=exo, ep=ep))
    return res


def setup():
    import pyforecaster.forecasting_models.neural_models.INN  # noqa


ACTS = ['linloglin', 'linloglin-k3', 'invcondiff', 'invcondiff-a2', 'invcondiff_inverse', 'leaky', 'leaky-slope', 'leaky-partial', 'softplus', 'identity']


def act_of(name):
    from pyforecaster.forecasting_models.neural_models import layers as L
    from flax import linen as nn
    return {'linloglin': (L.linloglin, {}), 'linloglin-k3': (partial(L.linloglin, k=3), {}), 'invcondiff': (L.invcondiff, {}), 'invcondiff-a2': (partial(L.invcondiff, a=2., c=.5), {}),
            'invcondiff_inverse': (L.invcondiff_inverse, {}), 'leaky': (nn.leaky_relu, {}), 'leaky-slope': (nn.leaky_relu, dict(negative_slope=.25)),
            'leaky-partial': (partial(nn.leaky_relu, negative_slope=.4), {}), 'softplus': (nn.softplus, {}), 'identity': (L.identity, {})}[name]


GRIDS = {'linloglin': [-3000., -10.3, -1., 0., .4, 10., 2000.], 'linloglin-k3': [-3000., -3.2, -1., 0., .4, 3., 2000.], 'invcondiff': [-300., -1., -.4, 0., .9, 1.5, 1000.],
         'invcondiff-a2': [-300., -2., -.4, 0., 1.9, 2.5, 1000.], 'invcondiff_inverse': [-3., -1., -.4, 0., .9, 1.5, 4.], 'softplus': [-2., -1., 0., .5, 2., 4., 5.]}
NORMAL = [-300., -1.5, -1e-2, 0., .5, 2., 400.]


def cut(g, w):
    return g if w < 4 else [g[0], g[1], g[3], g[4], g[6]]


def run(ctx, case):
    globals()[case['kind']](ctx, case)


def close(ctx, got, exp, key, msg, amp=1.):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    sc = 1 + np.max(np.abs(exp), axis=-1, keepdims=True)
    bad = ~(np.abs(got - exp) <= 2e-5 * amp * sc)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.ok(False, key, '%s at %s: got %s expected %s' % (msg, i, got[i[:-1]], exp[i[:-1]]))
    else:
        ctx.ok(True, key, msg)


def scalar(ctx, case):
    from pyforecaster.forecasting_models.neural_models import layers as L
    from flax import linen as nn
    import jax.numpy as jnp
    a, par = case['act'], case['par']
    if a == 'linloglin':
        f, g, th = partial(L.linloglin, k=par[0]), partial(L.linloglin_inverse, k=par[0]), [par[0]]
        xs, amp = LIN, 2.
    elif a == 'invcondiff':
        f, g, th = partial(L.invcondiff, a=par[0], c=par[1]), partial(L.invcondiff_inverse, a=par[0], c=par[1]), [par[0]]
        xs, amp = [x for x in LIN], 10.
    else:
        f, g, th = nn.softplus, L.inverse_softplus, [20.]
        xs, amp = [x for x in LIN if -8 < x], 100.
    xs = list(xs) + [v for t in th for s in (1, -1) for v in (s * t, s * np.nextafter(np.float32(t), np.float32(1e9)), s * np.nextafter(np.float32(t), np.float32(0)), s * t * .99, s * t * 1.01) if a != 'softplus' or v > 0]
    xs = np.unique(np.array(xs, np.float32))
    y = np.asarray(f(jnp.array(xs)))
    back = np.asarray(g(jnp.array(y)))
    ctx.step(len(xs))
    ctx.trace()
    for x, yy, b in zip(xs, y, back):
        ctx.state(a, tuple(par), float(x))
        ctx.ok(np.isfinite(yy) and np.isfinite(b) and abs(b - x) <= 2e-5 * amp * (1 + abs(x)), 'scalar:%s' % a, '%s x %s forward %s back %s' % (case, x, yy, b))
        ref = reference(a, par, float(x))
        ctx.ok(abs(yy - ref) <= 1e-5 * (1 + abs(ref)), 'scalar:value:%s' % a, '%s x %s got %s expected %s' % (case, x, yy, ref))
    far = np.diff(xs) > 1e-3
    ctx.ok(np.all(np.diff(y)[far] > 0) and np.all(np.diff(y) >= -1e-6), 'scalar:increasing:%s' % a, '%s' % case)
    zs = y if a == 'invcondiff' else np.unique(np.r_[y, xs[xs > 1e-2] if a == 'softplus' else xs])
    if a == 'softplus':
        zs = zs[zs > 1e-4]
    zz = np.asarray(f(g(jnp.array(zs))))
    ctx.ok(np.all(np.abs(zz - zs) <= 2e-5 * (1 + np.abs(zs))), 'scalar:other:%s' % a, '%s %s' % (case, list(zip(zs, zz))[:60]))


def reference(a, par, x):
    s = np.sign(x)
    if a == 'linloglin':
        k = par[0]
        return s * np.log1p(abs(x)) if abs(x) <= k else s * (np.log1p(k) + (abs(x) - k) / (k + 1))
    if a == 'invcondiff':
        aa, c = par
        return c * x if abs(x) <= aa else s * (aa * c * np.log(abs(x)) + aa * c * (1 - np.log(aa)))
    return np.logaddexp(0, x)


def weights(w, full=False):
    n = w * (w - 1) // 2
    pats = list(itertools.product([-100., 0., .7], repeat=n))
    if len(pats) > 27 and not full:
        pats = [p for i, p in enumerate(pats) if i % 104 == 0] + [pats[-1]]
    ker, bias = [], []
    for p in pats:
        for b in (0., 1., -1.):
            ker.append(np.array(p, np.float32).reshape(n, 1))
            bias.append(np.array([b * (1 + i) / 2 for i in range(w)], np.float32))
    return np.array(ker).reshape(len(ker), n, 1), np.array(bias)


def dense(ker, w, s):
    K = np.zeros((len(ker), w, w))
    r, c = np.tril_indices(w, -1)
    K[:, r, c] = np.tanh(ker[:, :, 0].astype(float))
    return K * s / w + np.eye(w)


def layer(ctx, case):
    import jax
    from pyforecaster.forecasting_models.neural_models import layers as L
    w, s = case['w'], case['s']
    f, kw = act_of(case['act'])
    lay = L.CausalInvertibleLayer(features=w, activation=f, prediction_layer=case['last'], scaling_factor=s, **kw)
    ker, bias = weights(w, case['full'])
    P = {'params': {'kernel': ker, 'bias': bias}}
    ini = lay.init(jax.random.key(0), np.ones(w, np.float32))
    ctx.ok(ini['params']['kernel'].shape == ker.shape[1:] and ini['params']['bias'].shape == bias.shape[1:], 'layer:shapes', '%s %s' % (case, jax.tree_util.tree_map(np.shape, ini)))
    X = np.array(list(itertools.product(cut(GRIDS.get(case['act'], NORMAL), w), repeat=w)), np.float32)

    @jax.jit
    def both(P, X):
        one = jax.vmap(lambda p: jax.vmap(lambda x: lay.apply(p, x))(X))(P)
        bat = jax.vmap(lambda p: lay.apply(p, X, method='predict'))(P)
        inv = jax.vmap(lambda p, y: lay.apply(p, y, method='invert'))(P, bat)
        fwd = jax.vmap(lambda p, y: lay.apply(p, y, method='predict'))(P, inv)
        return one, bat, inv, fwd

    one, bat, inv, fwd = map(np.asarray, both(P, X))
    ctx.step(one.size)
    ctx.trace(len(ker))
    for i in range(len(ker)):
        ctx.state('layer', w, case['act'], case['last'], s, i)
    ctx.count('evaluations', int(one.size))
    key = 'layer:%s' % case['act']
    amp = {'softplus': 300., 'invcondiff_inverse': 100.}.get(case['act'], 5.) * (1 if s < 2 else 10)
    close(ctx, one, bat, key + ':single', '%s: one vector / table of vectors' % case)
    close(ctx, inv, np.broadcast_to(X, inv.shape), key + ':back', '%s: inverse of forward' % case, amp)
    close(ctx, fwd, bat, key + ':other', '%s: forward of inverse' % case, amp)
    # forward pass: activation of the triangular map
    lin = np.einsum('pij,nj->pni', dense(ker, w, s), X.astype(float)) + bias[:, None, :]
    if case['last']:
        close(ctx, bat, lin, key + ':linear', '%s: prediction layers are linear' % case)
    # causality: output i does not depend on inputs after i and is strictly monotone in input i
    keys = {tuple(v): n for n, v in enumerate(X.tolist())}
    vals = sorted(set(X[:, 0].tolist()))
    g = bat.reshape((len(ker),) + (len(vals),) * w + (w,))
    for i, j in itertools.product(range(w), range(w)):
        d = np.diff(g[..., i], axis=1 + j)
        tol = 1e-5 * (1 + np.max(np.abs(g[..., i])))
        ctx.state('pair', w, case['act'], case['last'], i, j, s)
        if j > i:
            ctx.ok(np.all(np.abs(d) <= tol), key + ':causal', '%s: output %d depends on the later input %d' % (case, i, j))
        if i == j:
            ctx.ok(np.all(d >= -tol) and np.all(np.sum(d, axis=1 + j) > tol), key + ':monotone', '%s: output %d does not increase with its own input' % (case, i))
    del keys


def stack(ctx, case):
    import jax
    from pyforecaster.forecasting_models.neural_models.INN import CausalInvertibleModule
    w, l = case['w'], case['l']
    m = CausalInvertibleModule(num_layers=l, features=w, scaling_factor=case['s'])
    p0 = m.init(jax.random.key(1), np.ones(w, np.float32))
    pars = []
    ker, bias = weights(w)
    for i in range(min(len(ker), 30)):
        # layer t uses the (i + 7 t)-th pattern
        pars.append({'params': {k: {'kernel': ker[(i + 7 * t) % len(ker)], 'bias': bias[(i + 5 * t) % len(ker)]} for t, k in enumerate(sorted(p0['params']))}})
    P = jax.tree_util.tree_map(lambda *a: np.stack(a), *([jax.tree_util.tree_map(np.asarray, p0)] + pars))
    X = np.array(list(itertools.product(cut([-60., -9., -1., 0., .4, 10., 50.], w), repeat=w)), np.float32)

    @jax.jit
    def both(P, X):
        one = jax.vmap(lambda p: jax.vmap(lambda x: m.apply(p, x))(X))(P)
        bat = jax.vmap(lambda p: m.apply(p, X, method='predict'))(P)
        inv = jax.vmap(lambda p, y: m.apply(p, y, method='invert'))(P, bat)
        other = jax.vmap(lambda p: m.apply(p, m.apply(p, X / 30, method='invert'), method='predict'))(P)
        return one, bat, inv, other

    one, bat, inv, other = map(np.asarray, both(P, X))
    ctx.step(one.size)
    ctx.trace(one.shape[0])
    for i in range(one.shape[0]):
        ctx.state('stack', w, l, i)
    amp = 10. * 6 ** (l - 1)
    close(ctx, one, bat, 'stack:single', '%s: one vector / table of vectors' % case, 10)
    close(ctx, inv, np.broadcast_to(X, inv.shape), 'stack:back', str(case), amp)
    close(ctx, other, np.broadcast_to(X / 30, inv.shape), 'stack:other', str(case), amp)
    n = len(set(X[:, 0].tolist()))
    g = bat.reshape((one.shape[0],) + (n,) * w + (w,))
    for i in range(w):
        for j in range(i + 1, w):
            ctx.state('stackpair', w, l, i, j)
            ctx.ok(np.all(np.abs(np.diff(g[..., i], axis=1 + j)) <= 1e-5 * (1 + np.max(np.abs(g)))), 'stack:causal', '%s: output %d depends on the later input %d' % (case, i, j))


def embedding(ctx, case):
    import jax
    from pyforecaster.forecasting_models.neural_models.INN import EndToEndCausalInvertibleModule, embed, invert
    w, ne = case['w'], case['ne']
    for n_out in range(1, w + 1):
        m = EndToEndCausalInvertibleModule(num_embedding_layers=2, num_prediction_layers=2, features_embedding=w, features_prediction=3, n_exogenous_features=ne, n_out=n_out, scaling_factor=.5)
        p = m.init(jax.random.key(2), np.ones(w + ne, np.float32))
        X = np.array(list(itertools.product([-20., -1., .3, 12.], repeat=w + ne)), np.float32)
        e = np.asarray(embed(p, X, m))
        b = np.asarray(invert(p, e, m))
        y = np.asarray(jax.vmap(lambda x: m.apply(p, x))(X))
        ctx.step(len(X))
        ctx.trace()
        ctx.state('embedding', w, ne, n_out)
        ctx.ok(e.shape == (len(X), w) and y.shape == (len(X), n_out), 'embedding:shape', '%s n_out %d: %s %s' % (case, n_out, e.shape, y.shape))
        close(ctx, b, X[:, ne:], 'embedding:back', '%s n_out %d' % (case, n_out), 100)
        e1 = np.asarray(jax.vmap(lambda x: m.apply(p, x, method=lambda s, v: s.embedder(v[s.n_exogenous_features:])))(X))
        close(ctx, e1, e, 'embedding:single', '%s n_out %d: embedding of one vector' % (case, n_out))
        # replacing the last entries of the embedding changes the last entries of the series only
        e2 = e.copy()
        e2[:, -n_out:] += 1
        b2 = np.asarray(invert(p, e2, m))
        ctx.ok(np.allclose(b2[:, :w - n_out], b[:, :w - n_out], atol=1e-4), 'embedding:future', '%s n_out %d' % (case, n_out))
        ctx.ok(np.all(np.abs(b2[:, w - n_out] - b[:, w - n_out]) > 1e-3), 'embedding:future-unused', '%s n_out %d' % (case, n_out))


def trained(ctx, case):
    import matplotlib.pyplot as plt
    from pyforecaster.forecasting_models.neural_models.INN import CausalInvertibleNN, embed
    n = 48
    r = np.random.RandomState(5)
    ix = pd.date_range('2021-01-01', periods=n, freq='1h')
    names = ['a', 'b', 'c', 'd']
    X = pd.DataFrame(np.cumsum(r.randn(n, 4), axis=1) + 2, index=ix, columns=names)
    Y = pd.DataFrame({'y0': X.c + .3, 'y1': X.d * 2}, index=ix)
    exo = None if case['exo'] is None else [names[case['exo']]]
    np.random.seed(3)
    if case['mode'] == 'none':
        m = CausalInvertibleNN(n_in=4, n_out=4, n_layers=2, n_epochs=case['ep'], batch_size=12, stats_step=1000, val_ratio=.25)
        m.fit(X, X)
        z = m.predict(X)
        ctx.ok(list(z.columns) == names and z.index.equals(ix), 'trained:labels', str(case))
        b = m.invert(z)
        ctx.ok(b.index.equals(ix) and list(b.columns) == names, 'trained:labels', '%s: inverse has index %s' % (case, b.index[:2]))
        close(ctx, b.values, X.values, 'trained:back', str(case), 20)
        sub = m.invert(z.iloc[[5, 2]])
        ctx.ok(np.allclose(sub.values, X.values[[5, 2]], atol=1e-3) and sub.index.equals(ix[[5, 2]]), 'trained:subset', str(case))
        for j in range(4):
            X2 = X.copy()
            X2.iloc[:, j] += 1.
            d = np.abs(m.predict(X2).values - z.values).max(axis=0)
            ctx.step()
            ctx.state('trained', case['mode'], case['ep'], j)
            ctx.ok(np.all(d[:j] == 0) and d[j] > 1e-4, 'trained:causal', '%s input %d changes outputs by %s' % (case, j, d))
    else:
        for l, nh in ((1, 3), (2, 5)):
            m = CausalInvertibleNN(n_in=4, n_out=2, n_layers=l, n_epochs=case['ep'], batch_size=12, stats_step=1000, val_ratio=.25, end_to_end=case['mode'], names_exogenous=exo, n_hidden_y=nh, n_prediction_layers=2)
            m.fit(X, Y)
            p = m.predict(X)
            plt.close('all')
            ctx.step()
            ctx.trace()
            ctx.state('trained', case['mode'], case['exo'], case['ep'], l, nh)
            ctx.ok(list(p.columns) == ['y0', 'y1'] and p.index.equals(ix) and np.all(np.isfinite(p.values)), 'trained:labels', str(case))
            endo = [c for c in names if not exo or c not in exo]
            xo = X[(exo or []) + endo].values
            # definition: the embedding of the future window is predicted and inverted; the past of the window is untouched
            e = np.asarray(embed(m.pars, xo, m.model))
            eh = np.asarray(m.predict_batch(m.pars, xo))
            w = len(endo)
            close(ctx, np.asarray(m.model.apply(m.pars, e, method='invert')), xo[:, len(exo or []):], 'trained:back', '%s: inverse embedding' % case, 20)
            emb = np.hstack([e[:, 2:], eh])
            exp = np.asarray(m.model.apply(m.pars, emb.astype(np.float32), method='invert'))[:, -2:]
            ctx.ok(emb.shape[1] == w and np.allclose(p.values, exp, atol=1e-4 * (1 + np.abs(exp))), 'trained:definition', '%s: %s expected %s' % (case, p.values[:2], exp[:2]))
            sizes = [np.shape(v['kernel']) for k, v in m.pars['params']['predictor'].items() if 'kernel' in v]
            ctx.ok((4, nh) in sizes, 'trained:sizes', '%s: hidden size %d not in %s' % (case, nh, sizes))
            # the position of the exogenous column in the table does not matter
            if exo:
                moved = X[[c for c in names if c not in exo] + exo]
                ctx.ok(np.allclose(m.predict(moved).values, p.values, atol=1e-5), 'trained:position', str(case))
                plt.close('all')
