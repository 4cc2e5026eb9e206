"""C02: the leaf-estimator Shapley values are the exact Shapley values of the leaf game."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, call, expect_close, forest_case, interesting
from harness import Facet, Violation

PROP = 'C02'
FORMS = ['dict', 'sk_clf', 'sk_reg', 'dt_clf', 'dt_reg']


@st.composite
def case(draw):
    c = draw(forest_case(FORMS, d_lo=1, d_hi=6, trees=3, depth=4, data=(1, 12)))
    c['C'] = draw(gen.coalitions(c['d'], 45))
    return c


def run(c, ctx):
    b = Built(c)
    r, = b.run(ctx, [call('shap_values', b.X, C=c['C'])])
    expect_close('shap_values', r, O.shap_leaf(b.F, c['C']))
    ctx.label('form:' + c['form'], 'grouped' if c['C'] != [[]] else 'single', 'trees:%d' % len(c['trees']))
    ctx.nontrivial = interesting(b)


@st.composite
def eff_case(draw):
    """Larger shapes than the brute force can take; the rows are background rows."""
    d = draw(st.integers(2, 9))
    ts = draw(gen.forest(d, 1, 6, 5, gen.quarter(1), full=75, split=True))
    D = draw(gen.rows(4, 30, d))
    c = {'form': draw(st.sampled_from(['dict', 'sk_reg'])), 'd': d, 'k': 1, 'order': 'dfs', 'trees': ts, 'data': D,
         'X': [D[draw(st.integers(0, len(D) - 1))] for _ in range(draw(st.integers(1, 4)))]}
    c['C'] = draw(gen.coalitions(d, 45))
    return c


def eff_run(c, ctx):
    b = Built(c)
    r, = b.run(ctx, [call('shap_values', b.X, C=c['C'])])
    r = np.asarray(r)
    if r.shape != (b.F.n, b.d, b.F.k):
        raise Violation('shap_values', 'shape %s' % (r.shape,))
    gs = O.groups(b.d, c['C'])
    tot = sum(r[:, g[0]] for g in gs)
    pred, mean = O.predict(b.trees, b.X), O.predict(b.trees, b.data).mean(axis=0)
    expect_close('shap_values', tot, pred - mean, what='efficiency:')
    used = set(int(f) for t in b.trees for f, cl in zip(t['features'], t['children_left']) if cl >= 0)
    for g in gs:
        if not set(g) & used:
            expect_close('shap_values', r[:, g], np.zeros_like(r[:, g]), what='dummy player %s:' % g)
        for v in g[1:]:
            expect_close('shap_values', r[:, v], r[:, g[0]], what='group %s:' % g)
    ctx.label('d:%d' % b.d, 'grouped' if c['C'] != [[]] else 'single')
    ctx.nontrivial = interesting(b)


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(FORMS, d=(3, 6), trees=(1, 8), N=(60, 400)))}
    c['C'] = draw(gen.coalitions(c['bulk']['d'], 30))
    return c


RULE = ('exact: forests of 1-3 trees of depth <= 4 over 1-6 integer features in five model forms, 1-12 background rows, '
        '1-3 rows, optional groups of 2-3 variables. efficiency: 1-6 trees of depth <= 5 over 2-9 features, explaining '
        'background rows. big: trees of depth <= 7 grown from a seed over 60-400 background rows. Non-trivial: some tree separates the background rows.')
FACETS = [Facet('exact', case, run, quick=1400, thorough=60000, shards=8),
          Facet('efficiency', eff_case, eff_run, quick=600, thorough=30000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=60, thorough=1500, shards=6)]
