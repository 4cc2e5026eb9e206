"""C04: Active Shapley values are the Shapley values of the game restricted to the active variables."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.common import Built, S_arr, call, expect_close, forest_case, interesting
from harness import Facet

PROP = 'C04'
FORMS = ['dict', 'sk_clf', 'sk_reg', 'dt_reg']


def active(F, S, N, C):
    """v(empty) = unconditional mean of the leaf estimator, v(T) = leaf estimate given T and N; players in S."""
    S = [int(s) for s in S]
    Cs = [c for c in C if c and set(c) <= set(S)]
    used = set(v for c in Cs for v in c)
    players = [[s] for s in S if s not in used] + [list(c) for c in Cs]

    def val(T):
        return O.exp_leaf(F, sorted(T) + [int(n) for n in N]) if T else O.exp_leaf(F, [])
    return O.shapley(players, val, F.d, (F.n, F.d, F.k))


@st.composite
def case(draw):
    c = draw(forest_case(FORMS, d_lo=1, d_hi=5, trees=3, depth=3, data=(1, 10)))
    d = c['d']
    C = draw(gen.coalitions(d, 40))
    players = O.groups(d, C)
    perm = list(draw(st.permutations(range(len(players)))))
    n = draw(st.integers(1, len(players)))
    c['C'] = C
    c['S'] = [v for i in perm[:n] for v in players[i]]
    c['N'] = [v for i in perm[n:] for v in players[i]]
    return c


def one_run(c, ctx):
    b = Built(c)
    S, N = c['S'], c['N']
    names = ['shap_values_acv', 'shap_values_acv_nopa', 'py_shap_values_acv']
    r = b.run(ctx, [call('shap_values_acv', b.X, S_arr(S), S_arr(N), C=c['C']),
                    call('shap_values_acv_nopa', b.X, S_arr(S), S_arr(N), C=c['C']),
                    call('py_shap_values_acv', b.X, list(S), list(N), C=c['C'])])
    want = active(b.F, S, N, c['C'])
    for n, g in zip(names, r):
        expect_close(n, g, want)
    ctx.label('grouped' if c['C'] != [[]] else 'single', 'N:none' if not N else 'N:some')
    ctx.nontrivial = interesting(b) and bool(N)


@st.composite
def adap_case(draw):
    c = draw(forest_case(FORMS, d_lo=1, d_hi=5, trees=3, depth=3, data=(1, 10), X=(2, 4)))
    d = c['d']
    C = draw(gen.coalitions(d, 40))
    players = O.groups(d, C)
    rows = []
    for _ in c['X']:
        perm = list(draw(st.permutations(range(len(players)))))
        n = draw(st.integers(1, len(players)))
        rows.append([[v for i in perm[:n] for v in players[i]], [v for i in perm[n:] for v in players[i]]])
    c['C'], c['rows'] = C, rows
    return c


def adap_run(c, ctx):
    b = Built(c)
    d, rows = c['d'], c['rows']
    # the layout get_active_null_coalition / get_null_coalition produce: [S, rest] and [S, N] with N from `size` on
    Ss = np.array([s + [-1] * (d - len(s)) for s, n in rows], dtype=np.int64)
    Ns = np.array([[-1] * len(s) + n for s, n in rows], dtype=np.int64)
    size = np.array([len(s) for s, n in rows], dtype=np.int64)
    names = ['shap_values_acv_adap', 'shap_values_acv_adap_nopa', 'shap_values']
    r = b.run(ctx, [call('shap_values_acv_adap', b.X, Ss, Ns, size, C=c['C']),
                    call('shap_values_acv_adap_nopa', b.X, Ss, Ns, size, C=c['C']),
                    call('shap_values', b.X, C=c['C'])])
    want = np.zeros((b.F.n, d, b.F.k))
    for i, (s, n) in enumerate(rows):
        Fi = O.Forest(b.trees, d, b.data, b.X[i:i + 1])
        want[i] = active(Fi, s, n, c['C'])[0]
    for nme, g in zip(names[:2], r):
        expect_close(nme, g, want)
        full = [i for i, (s, n) in enumerate(rows) if not n]
        if full:
            expect_close(nme + ' vs shap_values', np.asarray(g)[full], np.asarray(r[2])[full])
    ctx.label('grouped' if c['C'] != [[]] else 'single', 'sizes:%s' % ('mixed' if len(set(size)) > 1 else 'same'))
    ctx.nontrivial = interesting(b) and len(set(size)) > 1


@st.composite
def big_case(draw):
    s = draw(bulk.shape(FORMS, d=(3, 5), trees=(1, 8), depth=(3, 6), N=(60, 300)))
    C = draw(gen.coalitions(s['d'], 40))
    players = O.groups(s['d'], C)
    rows = []
    for _ in range(s['n']):
        perm = list(draw(st.permutations(range(len(players)))))
        n = draw(st.integers(1, len(players)))
        rows.append([[v for i in perm[:n] for v in players[i]], [v for i in perm[n:] for v in players[i]]])
    return {'bulk': s, 'C': C, 'rows': rows, 'S': rows[0][0], 'N': rows[0][1]}


def big_run(c, ctx):
    one_run(c, ctx)
    adap_run(c, ctx)


RULE = ('Forests of 1-3 trees of depth <= 3 over 1-5 integer features, 1-10 background rows, random split of the '
        'variables into active (at least one) and null, optional groups kept whole on one side; one split for all '
        'rows, or one per row; big: 1-8 trees of depth <= 6 grown from a seed over 60-300 rows. Non-trivial: some tree separates the background rows and null variables exist (one '
        'split) / rows have splits of different sizes (per row).')
FACETS = [Facet('single', case, one_run, quick=800, thorough=40000, shards=6),
          Facet('per_row', adap_case, adap_run, quick=600, thorough=30000, shards=6),
          Facet('big', big_case, bulk.big(big_run), quick=40, thorough=1000, shards=6)]
