"""C16: scenario trees of every kind stay valid trees; pre-fitted trees are superposed on the right forecast and never change."""
import itertools
import os
import tempfile
import numpy as np
import pandas as pd
import networkx as nx
from mc import fakeray, sched
from checks.c15 import judge_graph, monotone

PID = 'C16'
PREFORK = True
BOUNDS = dict(quick='scenred and quantile trees: 2..9 scenarios x 2..4 steps x every node request <= 5 (given at construction / at call / default); gradient and neural-gas trees on 4 '
                    'requests; pre-fitted generators of 3 kinds x extra node x every sequence of 3 predictions over 4 batches, all completion orders of the parallel paths',
              thorough='2..12 scenarios, requests <= 6, more gradient/gas requests')
ASSUMPTIONS = ['scenario values differ at each step', 'quantile base trees need node counts that divide each other (refused otherwise)', 'calibration data cover all 24 hours when '
               'trees are pre-fitted', 'process pools are replaced by an in-process executor with controlled completion order (pickling preserved by deep copies in the ray stand-in)']


def setup():
    import pyforecaster.scenarios_generator as sg, pyforecaster.tree_builders as tb, pyforecaster.big_data_utils  # noqa
    rng = np.random.default_rng(0)
    tb.ScenredTree(nodes_at_step=np.array([1, 2, 3])).gen_tree(rng.normal(size=(3, 5)))
    from pyforecaster.scenred import superimpose_signal_to_tree
    t, *_ = tb.QuantileTree(nodes_at_step=np.array([1, 2, 4])).gen_tree(rng.normal(size=(3, 8)))
    superimpose_signal_to_tree(pd.Series([1.0, 2.0, 3.0]), t)
    t, *_ = tb.ScenredTree(nodes_at_step=np.array([1, 2, 3])).gen_tree(rng.normal(size=(3, 5)))
    superimpose_signal_to_tree(pd.Series([1.0, 2.0, 3.0]), t)


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for kind, n, t in itertools.product(('ScenredTree', 'QuantileTree'), range(2, 10 if q else 13), (2, 3, 4)):
        res.append(dict(kind='trees', cls=kind, n=n, t=t, top=5 if q else 6))
    for cls in ('DiffTree', 'NeuralGas'):
        for req in ((1, 2), (1, 2, 4), (1, 1, 3), (1, 3, 3)) + (() if q else ((1, 2, 2, 4), (1, 1, 2, 2), (1, 4, 4), (1, 3, 6))):
            for base in ('scenred', 'quantiles'):
                for init in ('quantiles', 'zero'):
                    res.append(dict(kind='fitted', cls=cls, req=list(req), base=base, init=init))
    for cls, an, par in itertools.product(('ScenredTree', 'QuantileTree', 'DiffTree'), (False, True), (False, True)):
        res.append(dict(kind='offline', cls=cls, an=an, par=par))
    for cls, an in itertools.product(('ScenredTree', 'QuantileTree'), (False, True)):
        res.append(dict(kind='online', cls=cls, an=an))
    for req in monotone(3, 4) + monotone(4, 3):
        res.append(dict(kind='superpose', req=list(req)))
    return res


def run(ctx, case):
    with tempfile.TemporaryDirectory() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            globals()[case['kind']](ctx, case)
        finally:
            os.chdir(old)


def scen(t, n, trend=10.0, seed=1):
    rng = np.random.default_rng(seed * 100 + t * 10 + n)
    return np.cumsum(rng.normal(size=(t, n)), 0) + trend * np.arange(t).reshape(-1, 1)


def divides(req):
    return all(b % a == 0 for a, b in zip(req, req[1:]))


def judge_tuple(ctx, out, X, counts, key, info, hull=True):
    tree, tree_scens, tree_idxs, tree_vals = out
    judge_graph(ctx, tree, key, info, X.shape[0], counts)
    T = X.shape[0]
    t = {n: int(d['t']) for n, d in tree.nodes(data=True)}
    if set(t.values()) != set(range(T)):
        return
    if hull:
        for n, d in tree.nodes(data=True):
            v, lo, hi = float(np.ravel(d['v'])[0]), X[t[n]].min(), X[t[n]].max()
            ctx.ok(lo - 1e-4 <= v <= hi + 1e-4, key + ':range', '%s: node at step %d has value %.4f outside the scenarios of that step [%.4f, %.4f]' % (info, t[n], v, lo, hi))
    leaves = sorted(n for n in tree if t[n] == T - 1)
    idx = np.asarray(tree_idxs)
    if ctx.ok(idx.shape == (T, len(leaves)) and sorted(idx[-1]) == leaves, key + ':idx', '%s: path matrix %s' % (info, idx.tolist())):
        for c in range(len(leaves)):
            ctx.ok(all(tree.has_edge(idx[k, c], idx[k + 1, c]) and t[idx[k, c]] == k for k in range(T - 1)), key + ':paths', '%s: column %d is not a path' % (info, c))
    return t


def trees(ctx, case):
    import pyforecaster.tree_builders as tb
    from pyforecaster.scenred import get_nodes_per_time_from_tree
    n, T = case['n'], case['t']
    cls = getattr(tb, case['cls'])
    X = scen(T, n)
    reqs = monotone(T, case['top'])
    if case['cls'] == 'QuantileTree':
        reqs = [r for r in reqs if divides(r)]
    for req in reqs:
        exp = list(np.minimum(req, n)) if case['cls'] == 'ScenredTree' else list(req)
        for where in ('init', 'call', 'first2', 'df'):
            info = '%s n=%d t=%d nodes=%s (%s)' % (case['cls'], n, T, req, where)
            nodes = np.array(req)
            if where == 'first2':
                nodes[0] = 3                      # forced to a single root
                if case['cls'] == 'QuantileTree' and not divides((1,) + req[1:]):
                    continue
            n0, X0 = nodes.copy(), X.copy()
            Xin = pd.DataFrame(X) if where == 'df' else X
            if where == 'call':
                b = cls(nodes_at_step=np.array([1] + [2] * (T - 1)))
                out = b.gen_tree(Xin, nodes_at_step=nodes)
                ctx.ok(list(b.nodes_at_step) == [1] + [2] * (T - 1), 'trees:stored-nodes', info + ': the stored node counts changed')
            else:
                b = cls(nodes_at_step=nodes)
                out = b.gen_tree(Xin)
            ctx.step()
            ctx.state(case['cls'], n, T, req, where)
            ctx.ok((nodes == n0).all() and (X == X0).all(), 'trees:%s:input' % case['cls'], "%s: caller's data changed, node counts %s" % (info, nodes))
            judge_tuple(ctx, out, X, exp, 'trees:%s' % case['cls'], info)
            ctx.eq(np.asarray(out[1]), np.vectorize(lambda u: float(np.ravel(out[0].nodes[u]['v'])[0]))(np.asarray(out[2])), 'trees:%s:scens' % case['cls'], info, tol=1e-5)
            ctx.ok([int(k) for k in get_nodes_per_time_from_tree(out[0])] == exp, 'trees:per-time', info)
            if where == 'init':
                again = b.gen_tree(Xin)
                a1, a2 = [sorted((int(d['t']), round(float(d['p']), 9), round(float(np.ravel(d['v'])[0]), 6)) for _, d in o[0].nodes(data=True)) for o in (out, again)]
                ctx.ok(a1 == a2, 'trees:repeat', info + ': a second call gives another tree')
        ctx.trace()
    if n >= 8:
        out = cls().gen_tree(X) if case['cls'] == 'ScenredTree' else None
        if out is not None:
            judge_tuple(ctx, out, X, None, 'trees:default', 'default nodes n=%d t=%d' % (n, T))


def fitted(ctx, case):
    import pyforecaster.tree_builders as tb
    req = tuple(case['req'])
    if case['base'] == 'quantiles' and not divides(req):
        ctx.state('skip', req)
        return
    X = scen(len(req), 9, trend=1.0)
    kw = dict(init=case['init'], base_tree=case['base'])
    X0, nodes = X.copy(), np.array(req)
    b = getattr(tb, case['cls'])(nodes_at_step=nodes, **kw)
    for k_max in (0, 1, 4) if case['cls'] == 'DiffTree' else (1, 3):
        info = '%s %s k_max=%d' % (case['cls'], req, k_max)
        np.random.seed(3)
        out = b.gen_tree(X, k_max=k_max, do_plot=False)
        ctx.step()
        ctx.state(case['cls'], req, case['base'], case['init'], k_max)
        judge_tuple(ctx, out, X, list(np.minimum(req, 9)), 'fitted:%s' % case['cls'], info, hull=case['cls'] == 'NeuralGas' and case['init'] == 'quantiles')
        ctx.ok((X == X0).all() and tuple(nodes) == req, 'fitted:input', info)
        before = content(out[0])
        Y = scen(len(req), 9, trend=3.0, seed=5)
        np.random.seed(3)
        out2 = b.gen_tree(Y, k_max=k_max, do_plot=False, start_tree=out[0])
        ctx.step()
        judge_tuple(ctx, out2, Y, list(np.minimum(req, 9)), 'fitted:start:%s' % case['cls'], info, hull=False)
        ctx.ok(content(out[0]) == before, 'fitted:start-changed', info + ': the start tree was changed')
    ctx.trace()


def content(tree):
    return sorted((n, int(d['t']), round(float(d['p']), 12), tuple(np.ravel(d['v']).tolist())) for n, d in tree.nodes(data=True)), sorted(tree.edges)


def close(a, b, tol=1e-6):
    return a[1] == b[1] and len(a[0]) == len(b[0]) and all(u[:2] == v[:2] and abs(u[2] - v[2]) < tol and np.allclose(u[3], v[3], atol=tol) for u, v in zip(a[0], b[0]))


def errors(T, days=5):
    rng = np.random.default_rng(6)
    ix = pd.date_range('2021-01-01', periods=24 * days, freq='1h')
    h = np.asarray(ix.hour).reshape(-1, 1)
    return pd.DataFrame(rng.normal(size=(len(ix), T)) * (1 + h / 5.0) + h * 0.3, index=ix)


def plus(tree, pred):
    t2 = content(tree)
    return [(n, t, p, tuple(np.asarray(v) + pred[t])) for n, t, p, v in t2[0]], t2[1]


def offline(ctx, case):
    from pyforecaster.scenarios_generator import ScenGen
    import pyforecaster.scenarios_generator as sg
    import pyforecaster.big_data_utils as bd
    import copy
    T, an = 2, case['an']
    req = np.array([2, 4]) if an else np.array([1, 4])
    r0 = req.copy()
    np.random.seed(4)
    g = ScenGen(tree_type=case['cls'], online_tree_reduction=False, q_vect=np.array([0.05, 0.5, 0.95]), nodes_at_step=req, additional_node=an, max_iterations=2, parallel_preds=case['par'])
    y = errors(T)
    y0 = y.copy()
    g.fit(y, y, n_scen=8)
    key = 'offline:%s' % case['cls']
    ctx.ok(y.equals(y0) and (req == r0).all(), key + ':input')
    counts = ([1] if an else []) + list(req)
    ctx.ok(sorted(int(h) for h in g.trees) == list(range(24)), key + ':hours', str(list(g.trees)))
    stored = {h: content(t) for h, t in g.trees.items()}
    for h, t in g.trees.items():
        judge_graph(ctx, t, key + ':stored', '%s hour %s' % (case, h), len(counts), counts, tol=1e-5)
        if case['cls'] == 'ScenredTree':
            # the errors of that hour, not of another one, make the tree
            e = y[y.index.hour == h].values
            v = [np.ravel(d['v'])[0] for _, d in t.nodes(data=True) if d['t'] == len(counts) - 1]
            lo, hi = e[:, -1].min(), e[:, -1].max()
            w = hi - lo
            ctx.ok(lo - 0.3 * w <= min(v) and max(v) <= hi + 0.3 * w, key + ':hour-errors', 'hour %s: leaf values %s, errors in [%.2f, %.2f]' % (h, v, lo, hi))
    ix = pd.DatetimeIndex(['2022-05-01 00:00', '2022-05-01 13:00', '2022-05-02 13:00', '2022-05-03 23:00'])
    preds = pd.DataFrame([[10.0, 20.0], [-5.0, 7.0], [100.0, 300.0], [0.5, 0.25]], index=ix, columns=['a', 'b'])
    batches = [[0], [1, 2], [2, 1], [3, 0, 1]]
    for seq in itertools.product(range(4), repeat=3 if not case['par'] else 2):
        for bi in seq:
            rows = batches[bi]
            p = preds.iloc[rows]
            p0 = p.copy()
            init = None if not an else (None if bi == 1 else np.array([1000.0 + r for r in rows]))
            orders = list(itertools.permutations(range(len(rows)))) if case['par'] else [None]
            for od in orders:
                info = '%s after %s batch %s order %s' % (case, seq, rows, od)
                if case['par']:
                    with fakeray.owned([bd], list(od), 8), sched.executor_order(sg, list(od)):
                        ts = g.predict_trees(predictions=p, x=p, init_obs=init)
                else:
                    ts = g.predict_trees(predictions=p, x=p, init_obs=init)
                ctx.step()
                ctx.state(case['cls'], an, case['par'], seq, bi, od)
                ctx.ok(p.equals(p0), key + ':pred-input', info)
                if not ctx.ok(len(ts) == len(rows), key + ':length', '%s: %d trees' % (info, len(ts))):
                    continue
                for k, r in enumerate(rows):
                    pr = list(preds.iloc[r])
                    if an:
                        pr = [pr[0] if init is None else init[k]] + pr
                    ctx.ok(close(content(ts[k]), plus(g.trees[ix[r].hour], pr)), key + ':superposed', '%s: tree of row %d is not the stored tree of hour %d plus its forecast: %s' % (info, r, ix[r].hour, content(ts[k])[0]))
                    judge_graph(ctx, ts[k], key + ':predicted', info, len(counts), counts, tol=1e-5)
        ctx.trace()
    ctx.ok({h: content(t) for h, t in g.trees.items()} == stored, key + ':stored-changed', 'the stored trees changed')


def online(ctx, case):
    import pyforecaster.scenarios_generator as sg
    from pyforecaster.scenarios_generator import ScenGen
    an = case['an']
    y = errors(2)
    q = np.array([0.05, 0.5, 0.95])
    base = np.array([1, 2]) if not an else np.array([2, 2])
    for par in (False, True):
        g = ScenGen(tree_type=case['cls'], q_vect=q, nodes_at_step=base.copy(), additional_node=an, parallel_preds=par).fit(y, y)
        ix = pd.DatetimeIndex(['2022-05-01 00:00', '2022-05-01 13:00', '2022-05-02 13:00'])
        x = pd.DataFrame({'f': [1.0, 2.0, 3.0]}, index=ix)
        quant = np.array([[[50.0 * i + 100 * s - 3, 50.0 * i + 100 * s, 50.0 * i + 100 * s + 4] for s in range(2)] for i in range(3)])
        for rows, req, n in itertools.product(([0], [1, 2], [2, 0, 1]), (None, (1, 2), (2, 4), (1, 1)), (6, 7, 3)):
            for od in (itertools.permutations(range(len(rows))) if par else [None]):
                if case['cls'] == 'QuantileTree' and req and not divides(((1,) if an else ()) + req):
                    continue
                if not an and req and req[0] != 1 and case['cls'] == 'QuantileTree':
                    continue
                nodes = None if req is None else np.array(req)
                info = '%s rows=%s nodes=%s n=%d' % (case, rows, req, n)
                init = np.array([-900.0 - r for r in rows]) if an else None
                kw = dict(quantiles=quant[rows], n_scen=n, x=x.iloc[rows], nodes_at_step=nodes, init_obs=init, random_state=5)
                if par:
                    with sched.executor_order(sg, list(od)):
                        ts = g.predict_trees(**kw)
                else:
                    ts = g.predict_trees(**kw)
                ctx.step()
                ctx.state(case['cls'], an, par, tuple(rows), req, n, od)
                want = list(base) if req is None else list(req)
                if nodes is not None:
                    ctx.ok(tuple(nodes) == req, 'online:input', '%s: node counts changed to %s' % (info, nodes))
                if not an:
                    want[0] = 1
                else:
                    want = [1] + want
                if case['cls'] == 'ScenredTree':
                    want = list(np.minimum(want, n))
                if not ctx.ok(len(ts) == len(rows), 'online:length', info):
                    continue
                for k, r in enumerate(rows):
                    judge_graph(ctx, ts[k], 'online:%s' % case['cls'], info, len(want), want)
                    for _, d in ts[k].nodes(data=True):
                        v, t = float(np.ravel(d['v'])[0]), d['t'] - an
                        if t < 0:
                            ctx.ok(abs(v - init[k]) < 1e-4, 'online:root', '%s: first node %s, observation %s' % (info, v, init[k]))
                        else:
                            ctx.ok(abs(v - (50.0 * r + 100 * t)) < 20, 'online:%s:row' % case['cls'], '%s: node of row %d step %d has value %.2f, forecast around %.0f' % (info, r, t, v, 50.0 * r + 100 * t))
        ctx.ok(list(g.tree.nodes_at_step) == ([1] if an else []) + list(base), 'online:stored-nodes', 'stored node counts %s' % list(g.tree.nodes_at_step))
    ctx.trace()


def superpose(ctx, case):
    import copy
    import pyforecaster.tree_builders as tb
    from pyforecaster.scenred import superimpose_signal_to_tree, replace_var, retrieve_scenarios_indexes, get_nodes_per_time_from_tree
    req = case['req']
    T = len(req)
    X = scen(T, 6, seed=3)
    tree, *_ = tb.ScenredTree(nodes_at_step=np.array(req)).gen_tree(X)
    for sig in ([0.0] * T, list(range(10, 10 + T)), [1.5 * (-1) ** k for k in range(T)]):
        t1 = copy.deepcopy(tree)
        s = pd.Series(sig, index=['c%d' % k for k in range(T)], dtype=float)
        s0 = s.copy()
        out = superimpose_signal_to_tree(s, t1)
        ctx.step()
        ctx.state(tuple(req), tuple(sig))
        ctx.ok(close(content(out), plus(tree, sig)), 'superpose:value', '%s + %s = %s' % (content(tree)[0], sig, content(out)[0]))
        ctx.ok(s.equals(s0), 'superpose:input')
        judge_graph(ctx, out, 'superpose', str(case), T, None)
    t1 = copy.deepcopy(tree)
    vals = np.arange(len(tree.nodes)) * 3.0
    replace_var(t1, vals)
    ctx.ok(all(float(np.ravel(t1.nodes[n]['v'])[0]) == vals[i] for i, n in enumerate(t1.nodes)), 'superpose:replace')
    idx, leaves = retrieve_scenarios_indexes(tree)
    ctx.ok(sorted(leaves) == sorted(n for n in tree if tree.out_degree(n) == 0), 'superpose:leaves')
    for c in range(idx.shape[1]):
        path = nx.shortest_path(tree, 0, idx[-1, c])
        ctx.ok(list(idx[:, c]) == path, 'superpose:path', '%s instead of %s' % (list(idx[:, c]), path))
    ctx.ok([int(v) for v in get_nodes_per_time_from_tree(tree)] == [min(r, 6) for r in req], 'superpose:per-time')
    ctx.trace()
