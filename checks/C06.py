"""C06: the Same Decision Probability of tree classifiers is the leaf / discrete estimate."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, S_arr, arr, call, forest_case, interesting, proba
from harness import Facet, Skip, Violation

PROP = 'C06'


def judge(site, got, want):
    g = np.asarray(got, dtype=float)
    if g.shape != (len(want),):
        raise Violation(site, 'shape %s, expected (%d,)' % (g.shape, len(want)))
    for i, w in enumerate(want):
        if w is not None and not abs(g[i] - w) <= 1e-7:
            raise Violation(site, 'row %d: got %r, expected %r' % (i, float(g[i]), w))


@st.composite
def case(draw):
    c = draw(forest_case(['sk_clf', 'sk_clf', 'dt_clf'], d_lo=1, d_hi=4, trees=3, depth=3, data=(3, 16), full=85))
    c['S'] = draw(gen.some(c['d']))
    return c


def check(b, S, fx, fd, r):
    """r: compute_sdp_clf, _nopa, _cat, _cat_nopa"""
    names = ['compute_sdp_clf', 'compute_sdp_clf_nopa', 'compute_sdp_clf_cat', 'compute_sdp_clf_cat_nopa']
    leaf, disc = O.sdp_clf(b.F, S, fx, fd, 'leaf'), O.sdp_clf(b.F, S, fx, fd, 'discrete')
    for n, g, w in zip(names, r, [leaf, leaf, disc, disc]):
        judge(n, g, w)
        if '_cat' in n and not ((np.asarray(g) >= 0) & (np.asarray(g) <= 1)).all():
            raise Violation(n, 'not in [0, 1]: %r' % (list(g),))
    return leaf, disc


def steps(b, S):
    s = S_arr(S)
    return [call('compute_sdp_clf', b.X, s, b.data), call('compute_sdp_clf_nopa', b.X, s, b.data),
            call('compute_sdp_clf_cat', b.X, s, b.data), call('compute_sdp_clf_cat_nopa', b.X, s, b.data)]


def lab(b, c, ctx, ws):
    ctx.label('S:none' if not c['S'] else 'S:all' if len(c['S']) == c['d'] else 'S:some')
    vals = [w for w in ws[0] + ws[1] if w is not None]
    if any(1e-9 < v < 1 - 1e-9 for v in vals):
        ctx.label('strictly between 0 and 1')
        ctx.nontrivial = True


def run(c, ctx):
    b = Built(c)
    r = b.run(ctx, [proba('m', b.X), proba('m', b.data), call('predict', b.X), call('predict', b.data)] +
              steps(b, c['S']) + [call('py_compute_sdp_clf', b.X, list(c['S']), b.data),
                                  call('py_compute_sdp_clf_cat', b.X, list(c['S']), b.data)])
    fx, fd = np.argmax(r[0], axis=1), np.argmax(r[1], axis=1)
    ws = check(b, c['S'], fx, fd, r[4:8])
    px, pd = np.argmax(r[2], axis=1), np.argmax(r[3], axis=1)
    judge('py_compute_sdp_clf', r[8], O.sdp_clf(b.F, c['S'], px, pd, 'leaf_plain'))
    judge('py_compute_sdp_clf_cat', r[9], O.sdp_clf(b.F, c['S'], px, pd, 'discrete'))
    lab(b, c, ctx, ws)


# ---- boosted binary classifiers: leaf values go through the sigmoid, averaged over the trees
@st.composite
def boosted_case(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(6, 20))
    D = draw(gen.rows(n, n, d))
    y = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n).filter(lambda v: 0 < sum(v) < len(v)))
    X = [list(D[draw(st.integers(0, n - 1))]) for _ in range(draw(st.integers(1, 3)))]
    return {'d': d, 'data': D, 'y': y, 'X': X, 'S': draw(gen.some(d)), 'n_est': draw(st.integers(1, 4)),
            'depth': draw(st.integers(1, 3)), 'k': 2, 'lr': draw(st.sampled_from([0.1, 0.5, 1.0]))}


class GB(object):
    def __init__(self, c, ctx, steps):
        self.X, self.data = arr(c['X'], c['d']), arr(c['data'], c['d'])
        pre = [{'op': 'new', 'id': 'm', 'kind': 'fit', 'cls': 'sklearn.ensemble.GradientBoostingClassifier',
                'X': self.data, 'y': c['y'], 'params': {'n_estimators': c['n_est'], 'max_depth': c['depth'],
                                                        'learning_rate': c['lr'], 'random_state': 0}},
               {'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'), 'data': self.data, 'k': {}},
               {'op': 'forest', 'obj': 'm'}, proba('m', self.X), proba('m', self.data)]
        r = ctx.values(pre + steps)
        self.trees = []
        for t in r[2]:
            p = 1 / (1 + np.exp(-c['lr'] * t['values'][:, :1]))
            self.trees.append(dict(t, values=np.concatenate([1 - p, p], axis=1) / len(r[2])))
        self.fx, self.fd = np.argmax(r[3], axis=1), np.argmax(r[4], axis=1)
        self.F = O.Forest(self.trees, c['d'], self.data, self.X)
        self.r = r[5:]


def boosted_run(c, ctx):
    class B:
        X, data = arr(c['X'], c['d']), arr(c['data'], c['d'])
    g = GB(c, ctx, steps(B, c['S']))
    ws = check(g, c['S'], g.fx, g.fd, g.r)
    lab(g, c, ctx, ws)


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(['sk_clf', 'sk_clf', 'dt_clf'], d=(3, 10), trees=(1, 6), depth=(3, 6), N=(100, 500)))}
    c['S'] = draw(gen.some(c['bulk']['d']))
    return c


RULE = ('Classification forests of 1-3 trees of depth <= 3 over 1-4 integer features with 2 or 3 classes, 2-14 '
        'background rows, 1-3 rows, any subset S; fitted gradient boosting classifiers of 1-4 trees; and forests of trees of depth <= 6 '
        'grown from a seed over 100-500 background rows. A row whose '
        'ratio has a denominator within 1e-9 of zero without being identically zero is not judged. Non-trivial: some '
        'SDP lies strictly between 0 and 1.')
FACETS = [Facet('forest', case, run, quick=1400, thorough=40000, shards=6),
          Facet('boosted', boosted_case, boosted_run, quick=160, thorough=5000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=60, thorough=1500, shards=6)]
