"""C07: the Same Decision Probability of tree regressors is the leaf / discrete estimate."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, S_arr, arr, call, forest_case
from checks.C06 import judge
from harness import Facet, Skip

PROP = 'C07'


@st.composite
def case(draw):
    c = draw(forest_case(['dict1', 'sk_reg', 'sk_reg', 'dt_reg'], d_lo=1, d_hi=4, trees=3, depth=3, data=(3, 14),
                         full=80))
    c['S'] = draw(gen.some(c['d']))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    return c


def check(F, c, fx, fd, r, d):
    S = c['S']
    leaf = O.sdp_reg(F, S, fx, fd, c['t'], 'leaf')
    disc = O.sdp_reg(F, S, fx, fd, c['t'], 'discrete')
    w = lambda o: [x for x, _ in o]
    judge('compute_sdp_reg', r[0], w(leaf))
    judge('compute_sdp_reg_nopa', r[1], w(leaf))
    judge('compute_sdp_reg_cat', r[2], w(disc))
    judge('compute_sdp_reg_cat_nopa', r[3], w(disc))
    if len(r) > 4:
        plain = O.sdp_reg(F, S, fx, fd, c['t'], 'leaf_plain')
        edge = 1. if len(S) == d else 0. if not S else None
        judge('py_compute_sdp_reg', r[4], w(plain) if edge is None else [edge] * F.n)
        judge('py_compute_sdp_reg_cat', r[5], w(disc) if edge is None else [edge] * F.n)
    return w(leaf) + w(disc)


def steps(X, data, c):
    s = S_arr(c['S'])
    return [call(m, X, c['t'], s, data) for m in ('compute_sdp_reg', 'compute_sdp_reg_nopa', 'compute_sdp_reg_cat',
                                                  'compute_sdp_reg_cat_nopa')]


def lab(c, ctx, vals):
    ctx.label('S:none' if not c['S'] else 'S:all' if len(c['S']) == c['d'] else 'S:some')
    if any(w is not None and 1e-9 < w < 1 - 1e-9 for w in vals):
        ctx.label('strictly between 0 and 1')
        ctx.nontrivial = True


def tied(fx, fd, t):
    d2 = (fd[None, :] - fx[:, None]) ** 2
    return (np.abs(d2 - t) < 1e-7).any()


def run(c, ctx):
    b = Built(c)
    py = ['py_compute_sdp_reg', 'py_compute_sdp_reg_cat']
    r = b.run(ctx, [call('predict', b.X), call('predict', b.data)] + steps(b.X, b.data, c) +
              [call(m, b.X, c['t'], list(c['S']), b.data) for m in py])
    fx, fd = (np.asarray(x, dtype=float).reshape(-1) for x in r[:2])
    if tied(fx, fd, c['t']):
        raise Skip()
    lab(c, ctx, check(b.F, c, fx, fd, r[2:], c['d']))


@st.composite
def boosted_case(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(6, 16))
    D = draw(gen.rows(n, n, d))
    y = draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n))
    X = [list(D[draw(st.integers(0, n - 1))]) for _ in range(draw(st.integers(1, 3)))]
    return {'d': d, 'data': D, 'y': y, 'X': X, 'S': draw(gen.some(d)), 'n_est': draw(st.integers(1, 3)),
            'depth': draw(st.integers(1, 3)), 'lr': draw(st.sampled_from([0.1, 0.5, 1.0])),
            't': draw(st.sampled_from([0.3, 4.3, 12.7, 30.1]))}


def boosted_run(c, ctx):
    X, data = arr(c['X'], c['d']), arr(c['data'], c['d'])
    pre = [{'op': 'new', 'id': 'm', 'kind': 'fit', 'cls': 'sklearn.ensemble.GradientBoostingRegressor',
            'X': data, 'y': c['y'], 'params': {'n_estimators': c['n_est'], 'max_depth': c['depth'],
                                               'learning_rate': c['lr'], 'random_state': 0}},
           {'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'), 'data': data, 'k': {}},
           {'op': 'forest', 'obj': 'm'}] + [{'op': 'call', 'obj': 'm', 'm': 'predict', 'a': [x]} for x in (X, data)]
    r = ctx.values(pre + steps(X, data, c))
    fx, fd = np.asarray(r[3]), np.asarray(r[4])
    if tied(fx, fd, c['t']):
        raise Skip()
    F = O.Forest([dict(t, values=c['lr'] * t['values']) for t in r[2]], c['d'], data, X)
    lab(c, ctx, check(F, c, fx, fd, r[5:], c['d']))


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(['dict1', 'sk_reg', 'sk_reg', 'dt_reg'], d=(3, 10), trees=(1, 3), depth=(2, 5),
                                 N=(100, 400), n=(1, 2)))}
    c['S'] = draw(gen.some(c['bulk']['d']))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    return c


RULE = ('Regression forests of 1-3 trees of depth <= 3 over 1-4 integer features, 3-14 background rows, 1-3 rows, '
        'tolerances on the squared difference, any subset S; fitted gradient boosting regressors; and trees of depth '
        '<= 5 grown from a seed over 100-400 background rows. A row whose ratio '
        'has a denominator within 1e-9 of zero without being identically zero is not judged. Non-trivial: some SDP '
        'lies strictly between 0 and 1.')
FACETS = [Facet('forest', case, run, quick=1000, thorough=30000, shards=6),
          Facet('boosted', boosted_case, boosted_run, quick=160, thorough=5000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=32, thorough=1000, shards=8)]
