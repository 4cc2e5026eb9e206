"""C05: conditional expectations given a subset of variables follow the leaf / discrete estimators."""
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, S_arr, call, expect_close, forest_case, interesting
from harness import Facet

PROP = 'C05'
FORMS = ['dict', 'sk_clf', 'sk_reg', 'dt_clf', 'dt_reg']


@st.composite
def case(draw):
    c = draw(forest_case(FORMS))
    c['S'] = draw(gen.subset(c['d']))
    return c


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(FORMS, d=(3, 12), trees=(1, 12), depth=(3, 8), N=(100, 600)))}
    c['S'] = draw(gen.subset(c['bulk']['d']))
    return c


def classify(b, c, ctx):
    n = len(c['S'])
    ctx.label('form:' + c['form'], 'S:none' if n == 0 else 'S:all' if n == c['d'] else 'S:some')
    # non-trivial: a proper conditioning that tells data rows apart
    ctx.nontrivial = interesting(b)


def leaf_run(c, ctx):
    b = Built(c)
    S = S_arr(c['S'])
    r = b.run(ctx, [call('compute_exp', b.X, S, b.data), call('compute_exp_nopa', b.X, S, b.data),
                    call('compute_exp_normalized', b.X, S, b.data),
                    call('compute_exp_normalized_nopa', b.X, S, b.data),
                    call('py_compute_exp', b.X, c['S'], b.data)])
    e, n = O.exp_leaf(b.F, c['S']), O.exp_leaf_normalized(b.F, c['S'])
    expect_close('compute_exp', r[0], e)
    expect_close('compute_exp_nopa', r[1], e)
    expect_close('py_compute_exp', r[4], e)
    expect_close('compute_exp_normalized', r[2], n)
    expect_close('compute_exp_normalized_nopa', r[3], n)
    classify(b, c, ctx)


def cat_run(c, ctx):
    b = Built(c)
    S = S_arr(c['S'])
    r = b.run(ctx, [call('compute_exp_cat', b.X, S, b.data), call('compute_exp_cat_nopa', b.X, S, b.data),
                    call('py_compute_exp_cat', b.X, c['S'], b.data)])
    # on a grid of integers the discrete estimator averages the model over the rows equal to x on S,
    # restricted to the leaves compatible with x_S: every such row lies in one, so this is the plain average
    e = O.exp_discrete(b.F, c['S'])
    expect_close('compute_exp_cat', r[0], e)
    expect_close('compute_exp_cat_nopa', r[1], e)
    expect_close('py_compute_exp_cat', r[2], e)
    classify(b, c, ctx)


RULE = ('Random forests of 1-3 trees of depth <= 3 over 1-4 integer features, handed over as a dictionary or as a '
        'scikit-learn forest/tree with exactly those nodes (thresholds on and between data values), 2-10 background '
        'rows, 1-3 explained rows (rows of the data, perturbed rows, or rows outside its range), any subset S; big: 1-12 trees of '
        'depth <= 8 grown from a seed over 100-600 background rows with 3-12 features. '
        'Non-trivial: some tree separates the background rows.')
FACETS = [Facet('leaf', case, leaf_run, quick=900, thorough=40000, shards=8),
          Facet('discrete', case, cat_run, quick=500, thorough=20000, shards=4),
          Facet('big', big_case, bulk.big(lambda c, ctx: (leaf_run(c, ctx), cat_run(c, ctx))), quick=60, thorough=1500,
                shards=6)]
