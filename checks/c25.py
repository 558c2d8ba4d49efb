"""C25: numerical helpers: all small shapes, layouts, systems and observation histories against definitions evaluated element by element (exact rationals for the filter)."""
import contextlib
import io
import itertools
from fractions import Fraction as Fr
import numpy as np
import pandas as pd

PID = 'C25'
PREFORK = True
BOUNDS = dict(quick='tensors: every shape up to 3 rows x 3 x 3 and every order and subset of its labels; Hankel: every length up to 9, window, column subset; Kalman: 6 systems x 3 noise settings x every observation '
                    'sequence of length 4 over 3 values; bootstrap: lengths 1..5 x 7 statistics x repeated labels x 2 budgets; frequencies: every pair of harmonics for lengths 8..17; basis functions of all sizes up to 12',
              thorough='shapes up to 4, sequences of length 6, lengths to 24')
ASSUMPTIONS = ['tables converted to tensors have complete, block-ordered two-level columns', 'bootstrap budgets are larger than 100 samples (smaller ones are refused)', 'frequencies: distinct amplitudes']


def cases(tier, seed):
    q = tier == 'quick'
    res = []
    for shape in itertools.product(range(1, 4 if q else 5), repeat=3):
        res.append(dict(kind='tensor', shape=list(shape)))
    for n in range(1, 10 if q else 13):
        res.append(dict(kind='embedding', n=n))
    for s in range(len(SYSTEMS)):
        for noise in range(len(NOISE)):
            res.append(dict(kind='filter_', s=s, noise=noise, T=4 if q else 6))
    for stat in ('mean', 'min', 'max', 'sum', 'median', 'std', 'range'):
        for n in range(1, 6):
            res.append(dict(kind='boot', stat=stat, n=n))
    for l in range(8, 18 if q else 25):
        res.append(dict(kind='freq', l=l))
    for l in range(2, 13 if q else 20):
        res.append(dict(kind='basis', l=l))
    return res


def run(ctx, case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['kind']](ctx, case)


def orders(lst):
    return [list(p) for r in range(1, len(lst) + 1) for p in itertools.permutations(lst, r)]


def tensor(ctx, case):
    from pyforecaster.utilities import from_tensor_to_pdmultiindex as to_df, convert_multiindex_pandas_to_tensor as to_t
    n, s, q = case['shape']
    t = np.arange(n * s * q, dtype=float).reshape(n, s, q) * 7 % 101
    ix = pd.date_range('2021-01-01', periods=n, freq='1h')
    for lab in (list(range(s)), ['z', 'a', 'm', 'b'][:s]):
        al = [0.9, 0.1, 0.5, 0.3][:q]
        keep = t.copy()
        d = to_df(t, ix, lab, al)
        ctx.step()
        ctx.state('to_df', n, s, q, str(lab))
        ctx.ok(d.index.equals(ix) and d.shape == (n, s * q), 'tensor:shape', '%s %s' % (case, d.shape))
        for i, j, k in itertools.product(range(n), range(s), range(q)):
            ctx.eq(d[(al[k], lab[j])].values[i], t[i, j, k], 'tensor:label', '%s row %d step %s level %s' % (case, i, lab[j], al[k]), tol=0)
        ctx.eq(t, keep, 'tensor:input-changed', str(case), tol=0)
        for zf in (True, False):
            r = to_t(d, zero_first=zf)
            ctx.step()
            ctx.eq(r, np.swapaxes(t, 1, 2) if zf else t, 'tensor:roundtrip', '%s zero_first %s' % (case, zf), tol=0)
        # every reordering and selection of the labels of both levels
        for a, b in itertools.product(orders(al), orders(lab)):
            sub = d[[(u, v) for u in a for v in b]]
            r = to_t(sub)
            ctx.step()
            ctx.state('sub', n, str(a), str(b))
            ctx.eq(np.asarray(r).shape, (n, len(a), len(b)), 'tensor:sub-shape', '%s levels %s steps %s' % (case, a, b))
            for (i, u), (j, v) in itertools.product(enumerate(a), enumerate(b)):
                ctx.eq(r[:, i, j], d[(u, v)].values, 'tensor:sub', '%s levels %s steps %s' % (case, a, b), tol=0)
            # steps first, levels second: the layout of forecast quantile tables
            sw = d[[(u, v) for v in b for u in a]].swaplevel(axis=1)
            r = to_t(sw)
            for (i, u), (j, v) in itertools.product(enumerate(a), enumerate(b)):
                ctx.eq(r[:, j, i], d[(u, v)].values, 'tensor:swapped', '%s levels %s steps %s' % (case, a, b), tol=0)
    flat = pd.DataFrame(t[:, :, 0], index=ix)
    ctx.ok(to_t(flat).equals(flat), 'tensor:flat', str(case))
    ctx.trace()


def embedding(ctx, case):
    from pyforecaster.forecasting_models.holtwinters import hankel
    n = case['n']
    x = np.array([100.0 + 3 * i + 0.5 * i * i for i in range(n)])
    for w in range(1, n + 1):
        for shape in (x, x.reshape(-1, 1)):
            h = hankel(shape, w)
            ctx.step()
            ctx.state('hankel', n, w)
            ctx.eq(h.shape, (n - w + 1, w), 'hankel:shape', '%d samples, window %d' % (n, w))
            ctx.eq(h, [[x[i + j] for j in range(w)] for i in range(n - w + 1)], 'hankel:value', '%d samples, window %d' % (n, w), tol=0)
        if w <= 4:
            for sel in itertools.chain.from_iterable(itertools.permutations(range(w), r) for r in range(1, w + 1)):
                h = hankel(x, w, np.array(sel))
                ctx.step()
                ctx.eq(h, [[x[i + j] for j in sel] for i in range(n - w + 1)], 'hankel:selected', '%d samples, window %d, columns %s' % (n, w, sel), tol=0)
    ctx.trace()


SYSTEMS = [  # F, H, x0, P0
    ([[1]], [[1]], [0], [[4]]),
    ([[2]], [[1], [3]], [1], [[2]]),
    ([[1, 1], [0, 1]], [[1, 0]], [0, 1], [[3, 1], [1, 2]]),
    ([[0, 1], [1, 0]], [[1, 0], [0, 1]], [1, -1], [[2, 0], [0, 5]]),
    ([[1, 0], [0, 1]], [[1, 1]], [0, 0], [[10, 0], [0, 1]]),
    ([[1, 0], [0, 1]], [[1, 0], [1, 2]], [2, 0], [[1, 0], [0, 1]])]
NOISE = [(1, 1), (0, 2), (3, Fr(1, 2))]     # state, observation


def mm(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def tr(A):
    return [list(c) for c in zip(*A)]


def add(A, B, s=1):
    return [[a + s * b for a, b in zip(r, t)] for r, t in zip(A, B)]


def inv(A):
    if len(A) == 1:
        return [[1 / A[0][0]]]
    (a, b), (c, d) = A
    k = a * d - b * c
    return [[d / k, -b / k], [-c / k, a / k]]


def filter_(ctx, case):
    """predict/update in exact rational arithmetic, with the textbook covariance (I - K H) P"""
    from pyforecaster.utilities import kalman, kalman_predict, kalman_update
    F, H, x0, P0 = SYSTEMS[case['s']]
    qn, rn = NOISE[case['noise']]
    n, m = len(F), len(H)
    f = lambda A: [[Fr(v) for v in r] for r in A]
    F, H, P0 = f(F), f(H), f(P0)
    Q = [[Fr(qn) * (i == j) for j in range(n)] for i in range(n)]
    R = [[Fr(rn) * (i == j) for j in range(m)] for i in range(m)]
    num = lambda A: np.array([[float(v) for v in r] for r in A])
    Fn, Hn, Qn, Rn = num(F), num(H), num(Q), num(R)
    vals = (-1, 0, 2)
    seen = {}

    def go(x, P, xn, Pn, depth, hist):
        ctx.state('kalman', case['s'], case['noise'], hist)
        if depth == 0:
            ctx.trace()
            return
        # prediction
        xp, Pp = mm(F, x), add(mm(mm(F, P), tr(F)), Q)
        a, b = kalman_predict(xn, Pn, Fn, Qn)
        ctx.eq(a, [float(v[0]) for v in xp], 'kalman:predict', '%s after %s' % (case, hist), tol=1e-9)
        ctx.eq(b, num(Pp), 'kalman:predict-cov', '%s after %s' % (case, hist), tol=1e-9)
        for v in vals:
            y = [[Fr(v + i)] for i in range(m)]
            S = add(mm(mm(H, Pp), tr(H)), R)
            K = mm(mm(Pp, tr(H)), inv(S))
            xu = add(xp, mm(K, add(y, mm(H, xp), -1)))
            I = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
            Pu = mm(add(I, mm(K, H), -1), Pp)
            yn = np.array([float(z[0]) for z in y])
            x1, P1 = kalman(xn, Pn, Fn, Qn, yn, Hn, Rn)
            x2, P2 = kalman_update(a, b, yn, Hn, Rn)
            ctx.step(2)
            for got in ((x1, P1), (x2, P2)):
                ctx.eq(got[0], [float(z[0]) for z in xu], 'kalman:update', '%s after %s observing %s' % (case, hist, v), tol=1e-8)
                ctx.eq(got[1], num(Pu), 'kalman:update-cov', '%s after %s observing %s' % (case, hist, v), tol=1e-8)
            go(xu, Pu, x1, P1, depth - 1, hist + (v,))
    x0 = [[Fr(v)] for v in x0]
    go(x0, P0, np.array([float(v[0]) for v in x0]), num(P0), case['T'], ())
    ctx.sample(system=case['s'], noise=case['noise'])


def boot(ctx, case):
    from pyforecaster.stat_utils import bootstrap
    n = case['n']
    vals = [3.0, -1.0, 4.0, 10.0, 5.5][:n]
    fun = {'mean': np.mean, 'min': np.min, 'max': np.max, 'sum': np.sum, 'median': np.median, 'std': lambda v: np.std(v, ddof=1) if len(v) > 1 else np.nan, 'range': lambda v: np.max(v) - np.min(v)}[case['stat']]
    for ix in (list(range(n)), list('abcde')[:n], [0] * n, [1, 0, 1, 0, 2][:n], list(pd.date_range('2021', periods=n))):
        for budget in (101, 105) if n < 5 else (101, 601):
            s = pd.Series(vals, index=ix)
            keep = s.copy()
            log = []

            def probe(v):
                if not isinstance(v, pd.Series):
                    raise TypeError('whole samples only')
                log.append(v.values.copy())
                return float(fun(v.values))
            np.random.seed(4)
            r = bootstrap(s, probe, n_sampling=budget)
            ctx.step(len(log))
            ctx.state('boot', case['stat'], n, str(ix), budget)
            info = '%s labels %s budget %d' % (case, ix, budget)
            ctx.ok(s.equals(keep), 'boot:input-changed', info)
            ctx.ok(len(log) > 0 and all(len(v) == n and all(z in vals for z in v) for v in log), 'boot:sample', '%s: %s' % (info, [list(v) for v in log if len(v) != n or not all(z in vals for z in v)][:1]))
            used = log[-int(r.name):]
            st = np.array([fun(v) for v in used])
            ctx.eq(float(r['mean']), st.mean(), 'boot:mean', info, tol=1e-9)
            ctx.eq(float(r['std']), st.std(), 'boot:std', info, tol=1e-9)
            ctx.ok(n < 3 or len({tuple(v) for v in used}) > 10, 'boot:varied', info)
            if n == 5:
                cnt = np.array([sum(int(z == v) for u in used for z in u) for v in vals]) / (n * len(used))
                ctx.ok(np.all(np.abs(cnt - 1 / n) < 0.12), 'boot:uniform', '%s frequencies %s' % (info, cnt))
            if case['stat'] != 'range':
                np.random.seed(4)
                r2 = bootstrap(s, case['stat'], n_sampling=budget)
                ctx.eq(r2.values.astype(float), r.values.astype(float), 'boot:named', info, tol=1e-9)
    ctx.trace()


def freq(ctx, case):
    from pyforecaster.utilities import find_most_important_frequencies as f
    l = case['l']
    t = np.arange(l)
    hs = range(1, l // 2)
    for c in (0.0, 5.0):
        for k1, k2 in itertools.permutations(hs, 2):
            x = c + 3 * np.cos(2 * np.pi * k1 * t / l + 0.3) + 1.5 * np.sin(2 * np.pi * k2 * t / l)
            ctx.step(2)
            ctx.state('freq', l, k1, k2, c)
            ctx.eq(list(f(x, 1)), [k1], 'freq:first', '%d samples, harmonics %d (large) and %d, mean %s' % (l, k1, k2, c))
            ctx.eq(list(f(x, 2)), sorted([k1, k2]), 'freq:two', '%d samples, harmonics %d and %d, mean %s' % (l, k1, k2, c))
    ctx.trace()


def basis(ctx, case):
    from pyforecaster.forecasting_models.fast_adaptive_models import get_basis
    l = case['l']
    for nh in range(1, max(2, (l - 1) // 2 + 1)):
        for T in (l, 2 * l + 1, 1):
            B = get_basis(np.arange(T), l, nh)
            ctx.step()
            ctx.state('basis', l, nh, T)
            ref = [[np.sqrt(1 / l)] + [np.sqrt(2 / l) * g(2 * np.pi * k * t / l) for k in range(1, nh + 1) for g in (np.sin, np.cos)] for t in range(T)]
            ctx.eq(B, ref, 'basis:value', 'period %d, %d harmonics, %d samples' % (l, nh, T), tol=1e-9)
            if T == l and 2 * nh < l:
                ctx.eq(B.T @ B, np.eye(2 * nh + 1), 'basis:orthonormal', 'period %d, %d harmonics' % (l, nh), tol=1e-9)
        B = get_basis(np.arange(l), l, nh, frequencies=np.array([2]))
        ctx.eq(B[:, 1:], np.stack([np.sqrt(2 / l) * g(4 * np.pi * np.arange(l) / l) for g in (np.sin, np.cos)], 1), 'basis:given', 'period %d' % l, tol=1e-9)
    ctx.trace()
