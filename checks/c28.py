"""C28: persistence of networks: all histories of fits, saves and loads up to a depth, every truncation point of a saved file, every network class and constructor used for loading."""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import numpy as np

PID = 'C28'
PREFORK = True
JAX_CACHE = True
BOUNDS = dict(quick='histories: all sequences of length 4 over {fit A, fit B, save 1, save 2, load into new, load into existing, load into other configuration} for 1 class and length 3 for 2 more; crashes: every prefix and every zero-filled tail (step 64) of the saved files of 3 classes, with and without a previous model in memory; 20 class variants x 2 constructors x {predict, quantiles, scenarios, controls}',
              thorough='histories of length 5, crashes for all classes')
ASSUMPTIONS = ['the file is written front to back after truncation (no other process writes it)', 'numpy seed fixed before each fit: equal fits give equal networks']

OPS = ['A', 'B', 's', 't', 'n', 'm', 'e', 'o']


def cases(tier, seed):
    from mc import nnmodel as N
    q = tier == 'quick'
    res = []
    for k in N.KINDS:
        res.append(dict(kind='roundtrip', k=k))
    for k, d in (('ffnn', 4), ('picnn', 3), ('ffnn-prob', 3)):
        d += 0 if q else 1
        # all histories start with a fit and a save, otherwise nothing can be loaded
        for first in itertools.product('AB', 'st', OPS):
            res.append(dict(kind='history', k=k, first=list(first), d=d))
    for k in ('nn', 'picnn', 'inn') if q else N.KINDS:
        for part in range(4):
            res.append(dict(kind='crash', k=k, part=part, n=4))
    return res


def setup():
    import pyforecaster.forecasting_models.neural_models.INN  # noqa
    import pyforecaster.forecasting_models.neural_models.ICNN  # noqa


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        globals()[case['kind']](ctx, case)


def folder(case):
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'c28-%d-%s' % (os.getpid(), abs(hash(str(case)))))
    os.makedirs(d, exist_ok=True)
    return d


def roundtrip(ctx, case):
    from mc import nnmodel as N
    import jax.numpy as jnp
    k = case['k']
    d = folder(case)
    f = os.path.join(d, 'm.pk')
    m = N.fit(N.make(k), k)
    ref = N.observe(m, k)
    m.save(f)
    ctx.ok(N.same(ref, N.observe(m, k)) == [], 'roundtrip:save-changes', '%s' % k)
    required = dict(n_in=4, n_out=2) if k.startswith('inn') else dict(objective_fun=N.objective) if k.startswith('structured') else {}
    for how in ('same', 'default', 'load', 'load-other'):
        if how == 'same':
            c = N.make(k, load_path=f)
        elif how == 'default':
            c = type(m)(load_path=f, **required)
        else:
            c = N.make(k, **({} if how == 'load' else dict(n_layers=1, q_vect=[.25, .75], learning_rate=.5, unnormalized_inputs=['a'], max_scengen_rows=9)))
            if how == 'load-other':
                c = N.fit(c, k, 1)
            c.load(f)
        ctx.step()
        ctx.trace()
        ctx.state('roundtrip', k, how)
        bad = N.same(ref, N.observe(c, k))
        ctx.ok(bad == [], 'roundtrip:%s' % how, '%s loaded by %s: %s' % (k, how, bad))
        skip = ('load_path', 'logger', 'savepath_tr_plots')
        a, b = m.get_params(), c.get_params()
        diff = [n for n in a if n not in skip and n != 'pars' and str(a[n]) != str(b.get(n))]
        ctx.ok(diff == [], 'roundtrip:parameters', '%s loaded by %s: %s' % (k, how, [(n, a[n], b.get(n)) for n in diff]))
        if hasattr(m, 'optimize') and how != 'same':
            row = N.data(0)[0].iloc[[7]]
            obj = lambda y, u: jnp.mean(y) + .1 * jnp.mean(u ** 2)
            u0 = m.optimize(row, obj, n_iter=20, rel_tol=-1e9)[0]
            u1 = c.optimize(row, obj, n_iter=20, rel_tol=-1e9)[0]
            ctx.ok(np.allclose(u0, u1, atol=1e-3), 'roundtrip:controls', '%s loaded by %s: controls %s and %s' % (k, how, u0, u1))
        if k in ('inn',):
            z = m.predict(N.data(0)[0])
            ctx.ok(np.allclose(m.invert(z).values, c.invert(z).values, atol=1e-4), 'roundtrip:invert', k)
        # saved again: same content
        g = os.path.join(d, 'g.pk')
        c.save(g)
        e = N.make(k, load_path=g)
        ctx.ok(N.same(ref, N.observe(e, k, scen=False), 1e-5) in ([], [('scenarios', 'missing')]), 'roundtrip:twice', k)
        # training of the loaded one goes on as that of the original
        if how == 'default':
            r2 = N.observe(N.fit(N.make(k), k, 1), k, 1, scen=False)
            ctx.ok(N.same(r2, N.observe(N.fit(c, k, 1), k, 1, scen=False), 1e-3) == [], 'roundtrip:refit', '%s %s' % (k, N.same(r2, N.observe(c, k, 1, scen=False), 1e-3)))
    shutil.rmtree(d)


_REF = {}


def reference(k, seed, cfg):
    """observations of a network of configuration cfg fitted on data set seed only"""
    from mc import nnmodel as N
    if (k, seed, cfg) not in _REF:
        m = N.fit(N.make(k, **CFG[cfg]), k, seed)
        _REF[k, seed, cfg] = N.observe(m, k, 0, scen=False)
    return _REF[k, seed, cfg]


CFG = [dict(), dict(n_layers=3, n_hidden_x=3, q_vect=np.array([.2, .9]), normalize_target=False)]


def history(ctx, case):
    """State of the model: (content of the instance, content of file 1, content of file 2), content = (data set, configuration)."""
    from mc import nnmodel as N
    k = case['k']
    d = folder(case)
    for rest in itertools.product(OPS, repeat=case['d'] - 3):
        seq = case['first'] + list(rest)
        if set(seq) <= set('ABo'):
            continue
        m, cfg, cur = N.make(k), 0, None
        files = {}
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        dead = False
        ops = []
        for op in seq:
            ops.append(op)
            if op in 'AB':
                N.fit(m, k, 'AB'.index(op))
                cur = ('AB'.index(op), cfg)
            elif op in 'st':
                f = os.path.join(d, op)
                m.save(f)
                files[op] = (cur, cfg)
            elif op in 'nme':
                src = {'n': 's', 'm': 't', 'e': 's'}[op]
                if src not in files:
                    dead = True
                    break
                if op == 'e':
                    m.load(os.path.join(d, src))
                else:
                    m = N.make(k, load_path=os.path.join(d, src))
                cur, cfg = files[src]
            elif op == 'o':
                # a fresh, differently configured instance takes over
                m, cfg, cur = N.make(k, **CFG[1]), 1, None
            ctx.step()
            ctx.state('history', k, cur, cfg, tuple(sorted(files.items())))
            if cur is not None:
                bad = N.same(reference(k, cur[0], cur[1]), N.observe(m, k, 0, scen=False))
                ctx.ok(bad == [], 'history:differs', '%s after %s (expected a network of configuration %d fitted on %s): %s' % (k, ' '.join(ops), cur[1], 'AB'[cur[0]], bad))
                if bad:
                    break
        if not dead:
            ctx.trace()
    shutil.rmtree(d)


def crash(ctx, case):
    from mc import nnmodel as N
    k = case['k']
    d = folder(case)
    f, g = os.path.join(d, 'm.pk'), os.path.join(d, 'g.pk')
    m = N.fit(N.make(k), k)
    m.save(f)
    blob = open(f, 'rb').read()
    victim = N.fit(N.make(k), k, 1)
    ref = N.observe(victim, k, scen=False)
    n = len(blob)
    loaded = []
    points = [(i, 'cut') for i in range(n) if i % case['n'] == case['part']] + [(i, 'zeros') for i in range(0, n, 64) if (i // 64) % case['n'] == case['part']]
    keep = {a: id(b) for a, b in vars(victim).items()}
    for i, how in points:
        with open(g, 'wb') as h:
            h.write(blob[:i] + (b'' if how == 'cut' else b'\0' * (n - i)))
        ctx.step()
        try:
            victim.load(g)
            loaded.append((i, how))
        except Exception:
            pass
        if {a: id(b) for a, b in vars(victim).items()} != keep:
            if not loaded or loaded[-1] != (i, how):
                ctx.ok(False, 'crash:half-loaded', '%s: file cut at %d of %d: the model in memory changed although loading failed' % (k, i, n))
            victim = N.fit(N.make(k), k, 1)
            keep = {a: id(b) for a, b in vars(victim).items()}
    ctx.trace(len(points))
    ctx.count('crash points', len(points))
    for i, how in points:
        if i % 16 == case['part']:
            ctx.state('crash', k, how, i)
    # a zero tail after the end of the pickle itself is harmless: the network must then be the saved one
    for i, how in loaded:
        with open(g, 'wb') as h:
            h.write(blob[:i] + (b'' if how == 'cut' else b'\0' * (n - i)))
        bad = N.same(N.observe(m, k, scen=False), N.observe(N.make(k, load_path=g), k, scen=False))
        ctx.ok(bad == [], 'crash:loaded', '%s: file %s at %d of %d is loaded as another network: %s' % (k, how, i, n, bad))
    ctx.ok(N.same(ref, N.observe(victim, k, scen=False)) == [], 'crash:memory', '%s: failed loads changed the model in memory' % k)
    # the constructor does not return a network either
    for i in sorted({0, 1, n // 3, n // 2, n - 1}):
        with open(g, 'wb') as h:
            h.write(blob[:i])
        try:
            N.make(k, load_path=g)
            ctx.ok(False, 'crash:constructor', '%s: file cut at %d of %d accepted' % (k, i, n))
        except Exception:
            ctx.ok(True, 'crash:constructor')
    # the complete file
    victim.load(f)
    ctx.ok(N.same(N.observe(m, k, scen=False), N.observe(victim, k, scen=False)) == [], 'crash:complete', k)
    shutil.rmtree(d)
