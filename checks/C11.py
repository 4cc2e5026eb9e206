"""C11: the null coalitions derived from a table of sufficient sets are the complements of these sets."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.C04 import active
from checks.common import Built, call, expect_close, forest_case
from harness import Facet, Violation

PROP = 'C11'
U = 'acv_explainers.utils:'


@st.composite
def table(draw, d_hi=9):
    d = draw(st.integers(1, d_hi))
    rows = []
    for _ in range(draw(st.integers(1, 6))):
        S = draw(gen.subset(d))
        # beyond its size a row is padded; other contents there are not to be read
        pad = draw(st.lists(st.integers(0, d - 1), min_size=d - len(S), max_size=d - len(S))) \
            if gen.chance(draw, 25) else [-1] * (d - len(S))
        rows.append([S, pad])
    return {'d': d, 'rows': rows, 'size': draw(st.sampled_from(['int64', 'int32', 'list']))}


def judge(site, c, res, lists):
    S, N = res
    d = c['d']
    if len(S) != len(c['rows']) or len(N) != len(c['rows']):
        raise Violation(site, 'number of rows')
    for i, (s, pad) in enumerate(c['rows']):
        gs = [int(v) for v in (S[i] if lists else S[i][:len(s)])]
        gn = [int(v) for v in (N[i] if lists else N[i][len(s):])]
        if gs != list(s):
            raise Violation(site, 'row %d: sufficient variables %s became %s' % (i, s, gs))
        if sorted(gn) != sorted(set(range(d)) - set(s)):
            raise Violation(site, 'row %d: %s sufficient, null %s' % (i, s, gn))
        if not lists and (len(S[i]) != d or len(N[i]) != d):
            raise Violation(site, 'row %d: widths %d, %d' % (i, len(S[i]), len(N[i])))


def run(c, ctx):
    tab = np.array([s + p for s, p in c['rows']], dtype=np.int64).reshape(-1, c['d'])
    size = [len(s) for s, _ in c['rows']]
    size = size if c['size'] == 'list' else np.array(size, dtype=c['size'])
    r = ctx.values([{'op': 'fn', 'f': U + 'get_null_coalition', 'a': [tab, size]},
                    {'op': 'fn', 'f': U + 'get_active_null_coalition_list', 'a': [tab, size]}])
    judge('get_null_coalition', c, r[0], False)
    judge('get_active_null_coalition_list', c, r[1], True)
    sz = set(len(s) for s, _ in c['rows'])
    ctx.label('sizes:%d distinct' % min(3, len(sz)), 'stale padding' if any(-1 not in p and p for _, p in c['rows']) else '-1')
    ctx.nontrivial = len(sz) > 1


# ---- the chain users run: sufficient explanations -> null coalitions -> Active Shapley values
@st.composite
def chain_case(draw):
    c = draw(forest_case(['sk_clf'], d_lo=2, d_hi=5, trees=3, depth=3, data=(3, 10), X=(2, 4)))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['pi'] = draw(st.sampled_from([0.4, 0.7, 0.9, 0.99]))
    return c


def chain_run(c, ctx):
    b = Built(c)
    d = c['d']
    steps = [dict(call('importance_sdp_clf', b.X, b.data, C=c['C'], pi_level=c['pi'], stop=False), id='e')]
    pick = lambda i: ('__refi__', 'e', i)  # noqa
    steps += [{'op': 'fn', 'f': U + 'get_null_coalition', 'a': [pick(1), pick(2)], 'id': 'n'},
              call('shap_values_acv_adap', b.X, ('__refi__', 'n', 0), ('__refi__', 'n', 1), pick(2), C=c['C'])]
    e, n, sv = b.run(ctx, steps)
    star, size = np.asarray(e[1]), np.asarray(e[2])
    rows = [[list(map(int, star[i, :size[i]])), []] for i in range(b.F.n)]
    judge('get_null_coalition', {'d': d, 'rows': rows}, n, False)
    if (size == 0).any():
        return
    want = np.zeros((b.F.n, d, b.F.k))
    for i, (s, _) in enumerate(rows):
        Fi = O.Forest(b.trees, d, b.data, b.X[i:i + 1])
        want[i] = active(Fi, s, sorted(set(range(d)) - set(s)), c['C'])[0]
    expect_close('shap_values_acv_adap of the explanations', sv, want)
    ctx.nontrivial = len(set(size)) > 1


RULE = ('Tables of 1-6 rows over 1-9 variables: any subset in any order, empty and full included, padded with -1 or with '
        'unrelated indices, sizes as arrays or lists; and tables produced by the search, handed on to the Active Shapley '
        'values. Non-trivial: rows of different sizes.')
FACETS = [Facet('table', table, run, quick=2500, thorough=60000, shards=4),
          Facet('chain', chain_case, chain_run, quick=250, thorough=8000, shards=4)]
