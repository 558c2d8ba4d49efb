import itertools, math
import numpy as np
import pandas as pd


def same(got, exp, tol=1e-9):
    """(equal?, why). NaN equals NaN; frames/series compare index, columns and values."""
    if isinstance(exp, pd.DataFrame):
        if not isinstance(got, pd.DataFrame):
            return False, 'expected a DataFrame, got %s' % type(got).__name__
        if list(got.columns) != list(exp.columns):
            return False, 'columns %s, expected %s' % (list(got.columns), list(exp.columns))
        if not got.index.equals(exp.index):
            return False, 'index %s, expected %s' % (list(got.index), list(exp.index))
        return same(got.values, exp.values, tol)
    if isinstance(exp, pd.Series):
        if not isinstance(got, pd.Series):
            return False, 'expected a Series, got %s' % type(got).__name__
        if not got.index.equals(exp.index):
            return False, 'index %s, expected %s' % (list(got.index), list(exp.index))
        return same(got.values, exp.values, tol)
    try:
        g = np.asarray(got, dtype=float)
        e = np.asarray(exp, dtype=float)
    except (TypeError, ValueError):
        g, e = np.asarray(got), np.asarray(exp)
        if g.shape != e.shape:
            return False, 'shape %s, expected %s' % (g.shape, e.shape)
        ok = all((a == b) or (a is b) or (isnan(a) and isnan(b)) for a, b in zip(g.ravel(), e.ravel()))
        return ok, '' if ok else 'got %s, expected %s' % (g.ravel()[:10], e.ravel()[:10])
    if g.shape != e.shape:
        return False, 'shape %s, expected %s' % (g.shape, e.shape)
    if g.size == 0:
        return True, ''
    bad = ~((np.abs(g - e) <= tol * (1 + np.abs(e))) | (np.isnan(g) & np.isnan(e)) | (g == e))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
        return False, 'at %s got %r, expected %r (%d of %d differ)' % (i, float(g[i]), float(e[i]), int(bad.sum()), g.size)
    return True, ''


def isnan(v):
    try:
        return bool(v != v)
    except Exception:
        return False


def compositions(n):
    """all ordered ways of writing n as positive parts"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield [k] + r


def sequences(alphabet, depth, min_depth=1):
    for d in range(min_depth, depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            yield list(s)


def sublists(items, min_len, max_len):
    for k in range(min_len, max_len + 1):
        for s in itertools.combinations(items, k):
            yield list(s)


def stamp(df):
    """hashable content of a frame (values, labels)"""
    return (tuple(map(str, df.columns)), tuple(map(str, df.index)), np.round(np.asarray(df.values, dtype=float), 9).tobytes())


def frame_eq(a, b):
    """bit-for-bit equality of two frames/arrays incl. dtype (to detect mutation of inputs)"""
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and a.equals(b) and list(a.columns) == list(b.columns) and a.index.equals(b.index)
    if isinstance(a, pd.Series):
        return a.equals(b)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
