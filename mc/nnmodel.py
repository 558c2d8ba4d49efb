"""Small network forecasters used by C28 and C30."""
import numpy as np
import pandas as pd

COLS = ['a', 'b', 'u', 'w']


def data(seed=0, rows=96, ints=True):
    r = np.random.RandomState(100 + seed)
    ix = pd.date_range('2021-01-01', periods=rows, freq='1h')
    x = pd.DataFrame({'a': r.randn(rows) * 2 + 3, 'b': (np.arange(rows) * 7) % 24 if ints else r.randn(rows), 'u': r.randn(rows), 'w': r.randn(rows) * 5}, index=ix)
    y = pd.DataFrame({'y0': x.a + x.u ** 2 + 10 + seed, 'y1': 30 * x.a - 20 * x.u + .1 * x.b + 100}, index=ix)
    return x, y


def objective(y, u):
    return (y ** 2).mean() + u.sum()


QV = np.array([.1, .4, .5, .8])

KINDS = ['nn', 'ffnn', 'ffnn-heads', 'ffnn-selector', 'ffnn-prob', 'lstm', 'lstm-prob', 'picnn', 'picnn-aug', 'picnn-prob', 'picnn-bounds', 'piqcnn', 'sigmoid', 'rec', 'structured', 'structured-prob', 'latent', 'inn', 'inn-full', 'inn-quasi']


def make(kind, **over):
    from pyforecaster.forecasting_models.neural_models import base_nn as B, ICNN as I, INN as J
    kw = dict(n_out=2, n_layers=2, n_hidden_x=4, batch_size=24, n_epochs=2, stats_step=2, rel_tol=-1e9, q_vect=QV, val_ratio=.5, n_scen_fit=5, learning_rate=.05)
    pk = dict(kw, optimization_vars=['u', 'w'], n_latent=2)
    base = kind.split('-')[0]
    if base == 'nn':
        return B.NN(**dict(kw, **over))
    if base == 'ffnn':
        ex = {'heads': dict(split_heads=True), 'selector': dict(selector=np.array([0, 2]), skip_connection=True), 'prob': dict(probabilistic=True, n_out=4)}.get(kind.partition('-')[2], {})
        return B.FFNN(**dict(kw, **ex, **over) if not set(ex) & set(over) else dict(dict(kw, **ex), **over))
    if base == 'lstm':
        return B.LSTMNN(**dict(dict(kw, **(dict(probabilistic=True, n_out=4) if 'prob' in kind else {})), **over))
    if base == 'inn':
        mode = kind.partition('-')[2]
        k = {a: b for a, b in kw.items() if a != 'n_hidden_x'}
        k.update(n_in=4, normalize_target=False, end_to_end=mode or 'none', **(dict(names_exogenous=['b'], n_hidden_y=4) if mode else dict(n_out=4)))
        return J.CausalInvertibleNN(**dict(k, **over))
    ex = {'picnn-aug': dict(augment_ctrl_inputs=True), 'picnn-prob': dict(probabilistic=True, n_latent=1), 'picnn-bounds': dict(z_min=[-1., -2.], z_max=[1., 2.]),
          'structured': dict(objective_fun=objective), 'structured-prob': dict(objective_fun=objective, probabilistic=True, n_latent=1, normalize_target=False), 'latent': dict(n_latent=None, n_embeddings=2, n_encoder_layers=1, n_decoder_layers=1)}.get(kind, {})
    cls = dict(picnn='PICNN', piqcnn='PIQCNN', sigmoid='PIQCNNSigmoid', rec='RecStablePICNN', structured='StructuredPICNN', latent='LatentStructuredPICNN')[base]
    return getattr(I, cls)(**dict(dict(pk, **ex), **over))


def fit(m, kind, seed=0):
    x, y = data(seed)
    np.random.seed(17 + seed)
    m.fit(x, x if kind == 'inn' else y)
    return m


def observe(m, kind, seed=0, rows=(0, 5, 30, 13), scen=True):
    import matplotlib.pyplot as plt
    x, y = data(seed)
    x = x.iloc[list(rows)]
    out = {}
    p = m.predict(x)
    out['predict'] = p.values
    out['labels'] = (list(p.columns), list(map(str, p.index)))
    if 'prob' in kind:
        out['sigma'] = m.predict(x, return_sigma=True)[1].values
    out['quantiles'] = np.asarray(m.predict_quantiles(x))
    if scen and kind != 'structured-prob':
        out['scenarios'] = np.asarray(m.predict_scenarios(x, n_scen=3, random_state=3))
    plt.close('all')
    return out


def same(a, b, tol=1e-5):
    bad = []
    for k in a:
        if k not in b:
            bad.append((k, 'missing'))
        elif k == 'labels':
            if a[k] != b[k]:
                bad.append((k, a[k], b[k]))
        elif np.shape(a[k]) != np.shape(b[k]) or not np.allclose(a[k], b[k], rtol=tol, atol=tol, equal_nan=True):
            bad.append((k, np.ravel(a[k])[:4], np.ravel(b[k])[:4]))
    return bad
