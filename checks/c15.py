"""C15: scenario reduction: every rank pattern of small scenario sets, every monotone node request, tolerance mode, several variables."""
import itertools
import numpy as np
import networkx as nx

PID = 'C15'
PREFORK = True
BOUNDS = dict(quick='all orderings of distinct values per step: 2..4 scenarios x 2..3 steps (5 scenarios x 2 steps) x every non-decreasing node request <= scenarios + 1, the steps having values of their own or sharing them; fixed data for '
                    '6..8 scenarios x 2..5 steps x every request; tolerances; 1..2 variables; 2 metrics; coinciding values (matrix clauses only)',
              thorough='5 scenarios x 3 steps, 9 scenarios, 3 variables')
ASSUMPTIONS = ['the graph is judged for scenarios whose values differ at each step (the library adds noise for that), the matrices for any scenarios',
               'node counts are non-decreasing along the steps']


def setup():
    from pyforecaster.scenred import scenred
    rng = np.random.default_rng(0)
    scenred(rng.normal(size=(3, 4)), nodes=np.array([1, 2, 3]))        # compiles before forking
    scenred(rng.normal(size=(3, 4, 2)), nodes=np.array([1, 2, 3]))
    scenred(np.asfortranarray(rng.normal(size=(3, 4))), nodes=np.array([1, 2, 3]))


def monotone(steps, top):
    return [(1,) + r for r in itertools.combinations_with_replacement(range(1, top + 1), steps - 1)]


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for n, t in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2)) + (() if q else ((5, 3), (4, 4))):
        firsts = list(itertools.permutations(range(n)))
        if t == 2:
            firsts = [tuple(range(n))]             # only relative order of the columns matters
        for p in firsts:
            res.append(dict(kind='orders', n=n, t=t, p=list(p)))
    for n, t, v in itertools.product((6, 7, 8) if q else (6, 7, 8, 9), (2, 3, 4, 5), (1, 2) if q else (1, 2, 3)):
        res.append(dict(kind='fixed', n=n, t=t, v=v))
    for n, t in itertools.product((1, 2, 3, 5, 8), (1, 2, 3, 4)):
        res.append(dict(kind='tol', n=n, t=t))
    for n, t in ((2, 2), (3, 2), (2, 3), (3, 3)):
        for m in itertools.product((0.0, 1.0), repeat=n):
            res.append(dict(kind='ties', n=n, t=t, m=list(m)))
    return res


def run(ctx, case):
    globals()[case['kind']](ctx, case)


LEVELS = np.array([0.0, 1.0, 2.3, 4.1, 7.7, 8.6, 12.9, 13.3, 19.1])


def reduce(ctx, X, key, info, nodes=None, expect=None, graph=True, **kw):
    from pyforecaster.scenred import scenred
    X0 = X.copy()
    n0 = None if nodes is None else nodes.copy()
    S, P, J, Me, g = scenred(X, nodes=nodes, **kw)
    ctx.step()
    X3 = X0 if X0.ndim == 3 else X0[:, :, None]
    T, N, V = X3.shape
    ctx.ok((X == X0).all(), key + ':input', info + ': the samples were changed')
    if nodes is not None:
        ctx.ok((nodes == n0).all(), key + ':nodes-input', '%s: the requested node counts were changed to %s' % (info, nodes))
    if not ctx.ok(J.shape == (T, N) and S.shape == (T, int(J[-1].sum()), V) and P.shape == S.shape[:2], key + ':shape', '%s: %s %s %s' % (info, S.shape, P.shape, J.shape)):
        return None
    keep = np.flatnonzero(J[-1])
    ctx.ok((P >= 0).all() and np.allclose(P.sum(1), 1, atol=1e-9), key + ':prob', '%s: probabilities per step sum to %s' % (info, P.sum(1)))
    # presence: a scenario present at a step is present later, and carries a positive probability exactly when present
    ctx.ok(((P > 0) == J[:, keep]).all(), key + ':presence', '%s: probabilities %s, presence %s' % (info, P.tolist(), J.tolist()))
    ctx.ok((J[:-1] <= J[1:]).all(), key + ':nested', '%s: %s' % (info, J.tolist()))
    if expect is not None:
        ctx.ok(list(J.sum(1)) == list(expect), key + ':counts', '%s: %s nodes per step, requested %s' % (info, list(J.sum(1)), list(expect)))
    # every node is an input scenario at that step; every other retained path runs through a node of that step
    own = {}
    for t in range(T):
        nodes_t = [s for s in range(len(keep)) if P[t, s] > 0]
        for s in nodes_t:
            ctx.ok((S[t, s] == X3[t, keep[s]]).all(), key + ':value', '%s: node of scenario %d at step %d has value %s, input %s' % (info, keep[s], t, S[t, s], X3[t, keep[s]]))
        for s in range(len(keep)):
            ctx.ok(any((S[t, s] == S[t, r]).all() for r in nodes_t), key + ':path', '%s: path of scenario %d at step %d takes the value of no node' % (info, keep[s], t))
    if not graph:
        return S, P
    # parent relation through shared history
    for t in range(T):
        nodes_t = [s for s in range(len(keep)) if P[t, s] > 0]
        owner = []
        for s in range(len(keep)):
            o = [r for r in nodes_t if (S[t, s] == S[t, r]).all()]
            ctx.ok(len(o) == 1, key + ':owner', info)
            owner.append(o[0] if o else None)
        own[t] = owner
        for r in nodes_t:
            fam = [s for s in range(len(keep)) if owner[s] == r]
            for s in fam:
                ctx.ok((S[:t + 1, s] == S[:t + 1, r]).all(), key + ':history', '%s: scenarios %d and %d meet at step %d but have different histories' % (info, keep[s], keep[r], t))
            for t2 in range(t, T):
                ctx.ok(abs(P[t2, fam].sum() - P[t, r]) < 1e-9, key + ':flow', '%s: node of scenario %d at step %d has probability %.4f, its descendants at step %d %.4f' % (info, keep[r], t, P[t, r], t2, P[t2, fam].sum()))
    # leaves are equiprobable sets of input scenarios
    ctx.ok(np.allclose(P[-1] * N, np.round(P[-1] * N), atol=1e-9), key + ':weights', '%s: %s' % (info, P[-1] * N))
    # match matrix: same node at step t
    M = np.asarray(Me)
    for t in range(T):
        exp = np.array([[1.0 if own[t][a] == own[t][b] else 0.0 for b in range(len(keep))] for a in range(len(keep))])
        ctx.ok(M.shape == (T, len(keep), len(keep)) and (M[t] == exp).all(), key + ':match', '%s: match matrix at step %d is %s' % (info, t, M[t].tolist() if M.ndim == 3 else M.shape))
    if g is None or isinstance(g, list):
        return S, P
    judge_graph(ctx, g, key, info, T)
    # graph nodes are exactly the nodes of the matrices
    if len(g.nodes):
        a = sorted((int(d['t']), tuple(np.ravel(d['v'])), round(float(d['p']), 9)) for _, d in g.nodes(data=True))
        b = sorted((t, tuple(S[t, s]), round(float(P[t, s]), 9)) for t in range(T) for s in range(len(keep)) if P[t, s] > 0)
        ctx.ok(a == b, key + ':graph-nodes', '%s: graph %s, matrices %s' % (info, a, b))
        for u, v in g.edges:
            du, dv = g.nodes[u], g.nodes[v]
            s = [k for k in range(len(keep)) if P[dv['t'], k] > 0 and (S[dv['t'], k] == dv['v']).all()]
            ctx.ok(len(s) == 1 and (S[du['t'], s[0]] == du['v']).all(), key + ':graph-parent', '%s: wrong parent of node %s' % (info, dv))
    return S, P


def judge_graph(ctx, g, key, info, T, counts=None, tol=1e-6):
    """a rooted tree, one parent one step earlier, probabilities sum to one per step and flow"""
    if T == 1:
        return                                     # a single step has no edges: the graph is not defined
    t = {n: int(d['t']) for n, d in g.nodes(data=True)}
    p = {n: float(d['p']) for n, d in g.nodes(data=True)}
    roots = [n for n in g if g.in_degree(n) == 0]
    ctx.ok(len(roots) == 1 and t[roots[0]] == 0, key + ':root', '%s: roots %s' % (info, roots))
    ctx.ok(nx.is_arborescence(g), key + ':tree', '%s: not a rooted tree' % info)
    for n in g:
        for m in g.successors(n):
            ctx.ok(t[m] == t[n] + 1, key + ':step', '%s: an edge joins steps %d and %d' % (info, t[n], t[m]))
        ch = list(g.successors(n))
        if t[n] < T - 1:
            ctx.ok(len(ch) > 0, key + ':leaf', '%s: a branch ends at step %d' % (info, t[n]))
            ctx.ok(abs(sum(p[m] for m in ch) - p[n]) < tol, key + ':graph-flow', '%s: node at step %d has probability %.4f, children %.4f' % (info, t[n], p[n], sum(p[m] for m in ch)))
        ctx.ok(p[n] >= 0, key + ':negative', info)
        v = np.ravel(g.nodes[n]['v'])
        ctx.ok(np.isfinite(np.asarray(v, dtype=float)).all(), key + ':finite', '%s: node value %s' % (info, v))
    for k in range(T):
        ns = [n for n in g if t[n] == k]
        ctx.ok(abs(sum(p[n] for n in ns) - 1) < tol, key + ':graph-prob', '%s: probabilities at step %d sum to %.6f' % (info, k, sum(p[n] for n in ns)))
        if counts is not None:
            ctx.ok(len(ns) == counts[k], key + ':graph-counts', '%s: %d nodes at step %d, requested %d' % (info, len(ns), k, counts[k]))
    ctx.ok(set(t.values()) == set(range(T)), key + ':steps', '%s: steps %s' % (info, sorted(set(t.values()))))


def requests(n, t):
    return monotone(t, n + 1)


def orders(ctx, case):
    n, t = case['n'], case['t']
    for rest in itertools.product(itertools.permutations(range(n)), repeat=t - 2 if t > 2 else 1):
        perms = ([tuple(range(n))] if t > 2 else []) + [tuple(case['p'])] + list(rest)
        perms = perms[:t] if t > 2 else [tuple(case['p'])] + list(rest)
        if len(perms) < t:
            continue
        # values of their own at every step, and the same values at every step (branches cross)
        for shift, req in itertools.product((100, 0), requests(n, t)):
            X = np.array([LEVELS[list(p)] + shift * k for k, p in enumerate(perms)])
            nodes = np.array(req)
            info = 'orders %s + %d per step, nodes %s' % (perms, shift, req)
            ctx.state(n, t, tuple(perms), shift, req)
            reduce(ctx, X.copy(), 'orders', info, nodes=nodes, expect=np.minimum(req, n) if set(req) != {1} else (1,) * t)
        ctx.trace()


def fixed(ctx, case):
    n, t, v = case['n'], case['t'], case['v']
    X = np.random.default_rng(n * 100 + t * 10 + v).normal(size=(t, n, v)) if v > 1 else np.random.default_rng(n * 100 + t * 10).normal(size=(t, n))
    for req in requests(n, t):
        for metric in ('cityblock', 'euclidean'):
            if metric == 'euclidean' and t > 3:
                continue
            nodes = np.array(req)
            ctx.state('fixed', n, t, v, req, metric)
            reduce(ctx, X.copy(), 'fixed', 'n=%d t=%d v=%d nodes=%s %s' % (n, t, v, req, metric), nodes=nodes, expect=np.minimum(req, n), metric=metric)
    # first count different from one: forced to one, caller's request unchanged
    nodes = np.array([2] + [min(3, n)] * (t - 1))
    reduce(ctx, X.copy(), 'forced', 'n=%d t=%d first count 2' % (n, t), nodes=nodes, expect=[1] + [min(3, n)] * (t - 1))
    ctx.trace()


def tol(ctx, case):
    n, t = case['n'], case['t']
    X = np.random.default_rng(n * 10 + t).normal(size=(t, n))
    last = None
    for tl in (0.0, 0.01, 0.1, 0.5, 1.0, 3.0, 10.0, 100.0):
        ctx.state('tol', n, t, tl)
        r = reduce(ctx, X.copy(), 'tol', 'n=%d t=%d tol=%s' % (n, t, tl), tol=tl)
        if r is None:
            continue
        S, P = r
        ctx.ok((P[0] > 0).sum() == 1, 'tol:root', 'n=%d t=%d tol=%s: %d roots' % (n, t, tl, (P[0] > 0).sum()))
        if tl == 0 and t > 1:
            ctx.ok(S.shape[1] == n, 'tol:zero', 'nothing may be merged at the last step with a zero tolerance, %d of %d left' % (S.shape[1], n))
        if last is not None:
            ctx.ok(S.shape[1] <= last, 'tol:monotone', 'n=%d t=%d: more scenarios survive at tolerance %s' % (n, t, tl))
        last = S.shape[1]
    ctx.trace()


def ties(ctx, case):
    """coinciding values: only the matrix clauses that do not need distinct values"""
    n, t = case['n'], case['t']
    for rest in itertools.product((0.0, 1.0), repeat=n * (t - 1)):
        X = np.vstack([np.array(case['m']), np.array(rest).reshape(t - 1, n)])
        for req in monotone(t, n):
            info = '%s nodes=%s' % (X.tolist(), req)
            ctx.state('ties', X.tobytes(), req)
            try:
                reduce(ctx, X.copy(), 'ties', info, nodes=np.array(req), graph=False)
            except (AssertionError, ValueError) as e:
                # the graph of coinciding nodes may be refused, explicitly
                ctx.count('ties refused')
    ctx.trace()
