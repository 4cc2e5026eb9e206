"""C03: every variant of the Shapley computation returns the same values, whatever the constructor options."""
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, call, expect_close, forest_case, interesting
from harness import Facet

PROP = 'C03'
FORMS = ['dict', 'sk_clf', 'sk_reg', 'dt_clf', 'dt_reg']


@st.composite
def case(draw):
    c = draw(forest_case(FORMS, d_lo=1, d_hi=5, trees=3, depth=3, data=(1, 10)))
    c['C'] = draw(gen.coalitions(c['d'], 45))
    c['mt'] = draw(st.booleans())
    c['C0'] = draw(gen.coalitions(c['d'], 60))  # grouping of a cache built for something else
    c['both'] = draw(st.booleans())
    return c


def lab(b, c, ctx):
    ctx.label('form:' + c['form'], 'grouped' if c['C'] != [[]] else 'single')
    ctx.nontrivial = interesting(b)


def plain_run(c, ctx):
    b = Built(c, acv_k={'cache': True, 'multi_threads': c['mt'], 'C': c['C']})
    b.steps.append(dict(b.steps[-1], id='p', k={}))
    b.steps.append(dict(b.steps[-1], id='o', k={'cache': True, 'multi_threads': c['mt'], 'C': c['C0']}))
    pl = lambda m: dict(call(m, b.X, C=c['C']), obj='p')
    names = ['shap_values', 'shap_values_nopa', 'cached.shap_values', 'cached.shap_values_cache',
             'cached.shap_values_cache_nopa', 'cached.shap_values_nopa', 'py_shap_values', 'py_shap_valuesv2',
             'cached for other groups.shap_values']
    r = b.run(ctx, [pl('shap_values'), pl('shap_values_nopa'), call('shap_values', b.X, C=c['C']),
                    call('shap_values_cache', b.X, C=c['C']), call('shap_values_cache_nopa', b.X, C=c['C']),
                    call('shap_values_nopa', b.X, C=c['C']), pl('py_shap_values'), pl('py_shap_valuesv2'),
                    dict(pl('shap_values'), obj='o')])
    want = O.shap_leaf(b.F, c['C'])
    for n, g in zip(names, r):
        expect_close(n, g, want)
    lab(b, c, ctx)


def norm_run(c, ctx):
    b = Built(c, acv_k={'cache': c['both'], 'cache_normalized': True, 'multi_threads': c['mt'], 'C': c['C']})
    b.steps.append(dict(b.steps[-1], id='p', k={}))
    b.steps.append(dict(b.steps[-1], id='o', k={'cache_normalized': True, 'multi_threads': c['mt'], 'C': c['C0']}))
    pl = lambda m: dict(call(m, b.X, C=c['C']), obj='p')
    names = ['shap_values_normalized', 'cached.shap_values_normalized', 'cached.shap_values_normalized_cache',
             'cached.shap_values_normalized_cache_nopa', 'cached for other groups.shap_values_normalized']
    r = b.run(ctx, [pl('shap_values_normalized'), call('shap_values_normalized', b.X, C=c['C']),
                    call('shap_values_normalized_cache', b.X, C=c['C']),
                    call('shap_values_normalized_cache_nopa', b.X, C=c['C']),
                    dict(pl('shap_values_normalized'), obj='o')])
    want = O.shap_normalized(b.F, b.trees, c['C'])
    for n, g in zip(names, r):
        expect_close(n, g, want)
    lab(b, c, ctx)


@st.composite
def full_case(draw):
    c = draw(forest_case(FORMS, d_lo=1, d_hi=4, trees=2, depth=3, data=(1, 8), X=(1, 2)))
    c['C'] = draw(gen.coalitions(c['d'], 45))
    return c


def full_run(c, ctx):
    b = Built(c)
    r = b.run(ctx, [call('py_shap_values_notoptimized', b.X, b.data, C=c['C']),
                    call('py_shap_values_discrete_notoptimized', b.X, b.data, C=c['C'])])
    gs, sh = O.groups(b.F.d, c['C']), (b.F.n, b.F.d, b.F.k)
    expect_close('py_shap_values_notoptimized', r[0],
                 O.shapley(gs, lambda S: O.exp_leaf_normalized(b.F, S), b.F.d, sh))
    expect_close('py_shap_values_discrete_notoptimized', r[1],
                 O.shapley(gs, lambda S: O.exp_discrete(b.F, S), b.F.d, sh))
    lab(b, c, ctx)


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(FORMS, d=(3, 5), trees=(1, 8), depth=(3, 6), N=(60, 300))),
         'mt': draw(st.booleans()), 'both': draw(st.booleans())}
    d = c['bulk']['d']
    c['C'], c['C0'] = draw(gen.coalitions(d, 30)), draw(gen.coalitions(d, 60))
    return c


def big_run(c, ctx):
    plain_run(c, ctx)
    norm_run(c, ctx)


RULE = ('Forests of 1-3 trees of depth <= 3 over 1-5 integer features in five model forms, 1-10 background rows, 1-3 '
        'rows, optional groups; caches built by either constructor path; big: 1-8 trees of depth <= 6 grown from a '
        'seed over 60-300 background rows. Non-trivial: some tree separates the '
        'background rows.')
FACETS = [Facet('plain', case, plain_run, quick=700, thorough=30000, shards=6),
          Facet('normalized', case, norm_run, quick=700, thorough=30000, shards=6),
          Facet('reference', full_case, full_run, quick=250, thorough=8000, shards=4),
          Facet('big', big_case, bulk.big(big_run), quick=40, thorough=1000, shards=6)]
