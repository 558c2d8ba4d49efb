"""C04: every call history up to a depth on one formatter, then compare with a fresh formatter; dry-run == real metadata."""
import copy, itertools, pickle
import pandas as pd
from mc import featmodel as fm
from mc import sched
from mc.util import frame_eq, same, sequences

PID = 'C04'
PREFORK = True
BOUNDS = dict(quick='~25 transform configurations x all histories of length <=2 over {dry-run, transform A, transform B (other length/columns), '
                    'transform without target, deep copy, pickle}, then transform A; all completion orders of 3 threaded transforms',
              thorough='all C01 configurations x all histories of length <=3; all completion orders of 4 threaded transforms')
ASSUMPTIONS = ['frames of one history share the sampling rate']
OPS = ['sim', 'A', 'B', 'notarget', 'copy', 'pickle']


def setup():
    import pyforecaster.formatter  # noqa


def cases(tier, seed):
    cfgs = [c for c in fm.config_space(tier) if not ('std' in (c['functions'] or []) and c.get('agg') in (None, 1, '1h') and c.get('bins') is None)]
    if tier == 'quick':
        cfgs = [c for c in cfgs if c['names'] == ['a', 'b']][::13]
        depth = 2
    else:
        cfgs, depth = [c for c in cfgs if c['names'] == ['a', 'b']], 3
    res = [dict(cfg=c, depth=depth) for c in cfgs]
    res += [dict(threads=perm) for perm in itertools.permutations(range(3 if tier == 'quick' else 4))]
    return res


def build(cfg, given, dt='1h'):
    from pyforecaster.formatter import Formatter
    f = Formatter(dt=pd.Timedelta(dt) if given else None)
    kw = {} if cfg.get('bins') is None else dict(agg_bins=list(cfg['bins']), nested=cfg['nested'])
    f.add_transform(list(cfg['names']), fm.real_functions(cfg['functions']), cfg.get('agg'), cfg['lags'], cfg['rel'], **kw)
    f.add_transform(['c'], ['mean'], 2, [0, 1], True)
    f.add_target_transform(['c'], None, None, [-1, -2])
    f.add_target_transform(['b'], ['mean'], 2, [-2])
    return f


def metadata(f):
    return pd.concat([t.metadata for t in f.transformers + f.target_transformers])


def md_same(a, b):
    if list(a.index) != list(b.index) or list(a.columns) != list(b.columns):
        return False, 'rows/columns %s/%s vs %s/%s' % (list(a.index), list(a.columns), list(b.index), list(b.columns))
    for c in a.columns:
        for i, (u, v) in enumerate(zip(a[c], b[c])):
            if c in ('aggregation_time', 'spacing_time'):
                u, v = pd.Timedelta(fm.norm_freq(u) if isinstance(u, str) else u), pd.Timedelta(fm.norm_freq(v) if isinstance(v, str) else v)
            if not (u == v or (u is None and v is None) or (u != u and v != v)):
                return False, 'row %s column %s: %r vs %r' % (a.index[i], c, u, v)
    return True, ''


def run(ctx, case):
    if 'threads' in case:
        return threads(ctx, case['threads'])
    cfg = case['cfg']
    A = fm.make_frame(22, ['a', 'b', 'c'], '1h', seed=ctx.seed)
    B = fm.make_frame(20, ['d', 'c', 'a', 'b'], '1h', seed=ctx.seed + 1, start='2021-07-01 00:00')
    for given in (True, False):
        f = build(cfg, given)
        x0, y0 = f.transform(A)
        m0 = metadata(f)
        ctx.step()
        # dry runs of a fresh formatter
        for how in (['x', 'dt'] if given else ['x']):
            g = build(cfg, given)
            for t in g.transformers + g.target_transformers:
                r = t.transform(A if how == 'x' else None, simulate=True)
                ctx.ok(r is None, 'dry-run-returns', 'a dry run returned data')
            ok, why = md_same(metadata(g), m0)
            ctx.step()
            ctx.ok(ok, 'dry-run-metadata', 'cfg=%s dry run on %s: %s' % (cfg, how, why))
        for seq in sequences(OPS, case['depth'], 0):
            if not given and len(seq) == case['depth'] and case['depth'] > 1 and seq[0] in ('copy', 'pickle'):
                continue   # copying a fresh object first adds no behaviour
            f = build(cfg, given)
            for op in seq:
                if op == 'sim':
                    getattr(f, "_simulate_transform", f.transform)(A)
                elif op == 'A':
                    x, y = f.transform(A)
                    check(ctx, cfg, seq, x, y, x0, y0)
                elif op == 'B':
                    f.transform(B)
                elif op == 'notarget':
                    f.transform(A, return_target=False)
                elif op == 'copy':
                    f = copy.deepcopy(f)
                else:
                    f = pickle.loads(pickle.dumps(f))
                ctx.step()
            x, y = f.transform(A)
            ctx.step()
            check(ctx, cfg, seq, x, y, x0, y0)
            ok, why = md_same(metadata(f), m0)
            ctx.ok(ok, 'metadata-after-history', 'cfg=%s history=%s: %s' % (cfg, seq, why))
            ctx.state(str(cfg), given, tuple(seq))
            ctx.trace()
        ctx.outcome(x0.shape, y0.shape)
    ctx.sample(cfg=cfg, last_history=seq)


def check(ctx, cfg, seq, x, y, x0, y0):
    ctx.ok(frame_eq(x, x0), 'features-after-history', 'cfg=%s history=%s: %s' % (cfg, seq, same(x, x0)[1]))
    ctx.ok(frame_eq(y, y0), 'target-after-history', 'cfg=%s history=%s: %s' % (cfg, seq, same(y, y0)[1]))


def threads(ctx, perm):
    """the transforms run in worker threads in every completion order"""
    from pyforecaster.formatter import Formatter
    import pyforecaster.formatter as mod
    A = fm.make_frame(10, ['a', 'b', 'c'], '1h', seed=ctx.seed)

    def mk():
        f = Formatter(dt=pd.Timedelta('1h'), n_parallel=2)
        f.add_transform(['a', 'b'], ['mean'], '2h', [1, 0])
        f.add_transform(['b'], None, None, [2])
        f.add_transform(['c'], ['min', 'max'], agg_bins=[0, 1, 3])
        if len(perm) > 3:
            f.add_transform(['a'], ['sum'], 3, [1], True)
        f.add_target_transform(['a'], None, None, [-1])
        return f
    x0, y0 = mk().transform(A)
    f = mk()
    with sched.executor_order(mod, list(perm)):
        x, y = getattr(f, "_transform", f.transform)(A, parallel=True)
    ctx.step(len(perm))
    ctx.eq(x, x0, 'threaded-features', 'order %s' % (perm,))
    ctx.eq(y, y0, 'threaded-target', 'order %s' % (perm,))
    ctx.state('threads', tuple(perm))
    ctx.trace()
