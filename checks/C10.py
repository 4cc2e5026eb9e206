"""C10: the marginal SDP is the share of background rows that keep the decision when given the row's values on S."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.common import Built, S_arr, call, forest_case
from checks.C08 import LEVELS, judge_search, space_players
from harness import Facet, Skip, Violation, expect_close

PROP = 'C10'


@st.composite
def case(draw, reg=False, d=(1, 5), groups=35, X=(1, 3)):
    forms = ['sk_reg', 'dt_reg'] if reg else ['sk_clf', 'dt_clf']
    c = draw(forest_case(forms, d_lo=d[0], d_hi=d[1], trees=3, depth=3, data=(1, 9), X=X, full=85))
    c['model'] = draw(st.sampled_from(['own', 'given', 'black box']))
    c['S'] = draw(gen.some(c['d']))
    c['C'] = draw(gen.coalitions(c['d'], groups))
    c['pi'] = draw(st.sampled_from(LEVELS + [0.5, 1.0]))
    c['min'] = draw(st.sampled_from([0, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    c['space'] = draw(gen.subset(c['d'], 1))
    c['static'] = draw(st.sampled_from(['', '', 'acv_agnosticX:ACXplainer.', 'acv_tree:ACVTreeAgnostic.']))
    c['t'] = draw(st.sampled_from([0.0, 0.2, 0.25, 1.0, 2.6]))
    return c


class Marginal(object):
    """The model's answers for every row, background row and subset, asked from the model itself in one batch."""

    def __init__(self, X, data, d, players=None):
        """players: only the unions of these groups of variables."""
        self.n, self.nd, self.d = len(X), len(data), d
        pl = [[i] for i in range(d)] if players is None else players
        self.sets = [sorted(v for g in co for v in g) for k in range(len(pl) + 1) for co in itertools.combinations(pl, k)]
        rows = []
        for S in self.sets:
            for x in X:
                z = data.copy()
                z[:, list(S)] = x[list(S)]
                rows.append(z)
        self.rows = np.concatenate(rows + [X])

    def fill(self, p, t=None):
        p = np.asarray(p, dtype=float).reshape(-1)
        fx = p[-self.n:]
        self.v = {}
        q = p[:-self.n].reshape(len(self.sets), self.n, self.nd)
        for i, S in enumerate(self.sets):
            if len(S) == self.d:
                self.v[frozenset(S)] = np.ones(self.n)
            else:
                ok = q[i] == fx[:, None] if t is None else np.abs(q[i] - fx[:, None]) <= t
                self.v[frozenset(S)] = ok.mean(axis=1)

    def __call__(self, S):
        return list(self.v[frozenset(S)])


def run(c, ctx, reg=False):
    b = Built(c)
    M = Marginal(b.X, b.data, c['d'])
    pl, sp = O.groups(c['d'], c['C']), space_players(c['space'], c['C'])
    kind = 'reg' if reg else 'clf'
    mod, pre = 'm', []
    if c['model'] == 'black box':
        tr = [O.wire_tree(O.flatten(t, c['order'])) for t in c['trees']]
        pre = [{'op': 'new', 'id': 'bb', 'kind': 'fn_model', 'trees': tr, 'clf': not reg}]
        mod = 'bb'
    model = None if c['model'] == 'own' else ('__ref__', mod)
    kt = {'threshold': c['t']} if reg else {}
    ks = dict(C=c['C'], pi_level=c['pi'], stop=c['stop'], **kt)
    if c['static'] and model is not None:
        st_ = lambda m: {'op': 'fn', 'f': 'acv_explainers.' + c['static'] + m, 'k': {}}  # noqa
    else:
        st_ = lambda m: call(m)  # noqa
    steps = [dict(st_('compute_msdp_' + kind), a=[b.X, S_arr(c['S']), b.data], k=dict(kt, model=model)),
             dict(st_('importance_msdp_%s_search' % kind), a=[b.X, b.data],
                  k=dict(ks, model=model, minimal=min(c['min'], len(pl)))),
             dict(st_('importance_msdp_%s_search' % kind), a=[b.X, b.data],
                  k=dict(ks, model=model, minimal=min(c['min'], len(sp)), r_search_space=list(c['space']))),
             call('importance_msdp_' + kind, b.X, b.data, model=model, minimal=min(c['min'], len(pl)), **ks)]
    r = b.run(ctx, pre + [{'op': 'call', 'obj': mod, 'm': 'predict', 'a': [M.rows]}] + steps)[len(pre):]
    M.fill(r[0], c['t'] if reg else None)
    expect_close('compute_msdp_' + kind, r[1], M(c['S']), what='marginal SDP')
    a = (c['d'], M.n, c['pi'])
    kw = dict(half=c['d'] / 2., eps=0., stop=c['stop'])
    nt = judge_search('importance_msdp_%s_search' % kind, r[2], pl, M, *a, minimal=min(c['min'], len(pl)), ctx=ctx, **kw)
    judge_search('importance_msdp_%s_search in a space' % kind, r[3], sp, M, *a, minimal=min(c['min'], len(sp)), **kw)
    judge_search('importance_msdp_' + kind, r[4], pl, M, *a, minimal=min(c['min'], len(pl)), **kw)
    ctx.label(c['model'], 'static' if c['static'] else 'method')
    ctx.nontrivial = nt and any(0 < v < 1 for v in M(c['S']))


def pool_run(c, ctx):
    b = Built(c)
    M = Marginal(b.X, b.data, c['d'])
    kt = {'threshold': c['t']} if not b.clf else {}
    f = 'acv_explainers.utils_sdp:msdp%s_mthread' % ('' if b.clf else '_reg')
    r = b.run(ctx, [{'op': 'call', 'obj': 'm', 'm': 'predict', 'a': [M.rows]},
                    {'op': 'fn', 'f': f, 'a': [b.X, S_arr(c['S']), ('__ref__', 'm'), b.data], 'k': kt}])
    M.fill(r[0], None if b.clf else c['t'])
    expect_close(f, r[1], M(c['S']), what='marginal SDP')
    ctx.nontrivial = any(0 < v < 1 for v in M(c['S']))


@st.composite
def pool_case(draw):
    return draw(case(draw(st.booleans())))


# ---- many variables: the enumeration of the subsets is cut, the search goes no further
@st.composite
def wide_case(draw):
    d = draw(st.sampled_from([17, 18]))
    far = gen.chance(draw, 75)  # then no row of the data shares a value with the row explained
    return {'d': d, 'data': draw(gen.rows(2, 4, d, 2 if far else 0, 4)), 'X': draw(gen.rows(1, 2, d, 0, 1)),
            'pi': draw(st.sampled_from([0.7, 1.0])), 'zero': draw(gen.subset(d, 0, 10)),
            'w': draw(st.lists(st.integers(-9, 9).filter(bool), min_size=d, max_size=d)),
            't': draw(st.sampled_from([0, 1, 5]))}


def wide_run(c, ctx):
    d, n, D, X = c['d'], len(c['X']), np.array(c['data'], dtype=float), np.array(c['X'], dtype=float)
    w = np.array([0 if v in c['zero'] else c['w'][v] for v in range(d)], dtype=float)
    r = ctx.values([{'op': 'new', 'id': 'bb', 'kind': 'linear', 'w': w},
                    {'op': 'fn', 'f': 'acv_explainers.acv_agnosticX:ACXplainer.importance_msdp_reg_search',
                     'a': [X, D], 'k': {'model': ('__ref__', 'bb'), 'pi_level': c['pi'], 'threshold': c['t']}}],
                   timeout=600)
    diff = (D[None] - X[:, None]) * w  # all integers: the shares are exact

    def val(S):
        out = [v for v in range(d) if v not in S]
        return list((np.abs(diff[:, :, out].sum(axis=2)) <= c['t']).mean(axis=1))

    # sizes are enumerated until 2^15 subsets have been listed
    tot, top = 0, 0
    for k in range(d + 1):
        tot, top = tot + math.comb(d, k), k
        if tot >= 2 ** 15:
            break
    ctx.nontrivial = judge_search('importance_msdp_reg_search', r[1], [[i] for i in range(d)], val, d, n, c['pi'], 1,
                                  True, half=min(d / 2., top), eps=0., ctx=ctx)


@st.composite
def tree_wide_case(draw):
    """importance_msdp of a tree model with more than fifteen variables: the (fifteen) most tested ones are searched."""
    cut = gen.chance(draw, 60)
    d = draw(st.integers(17, 19) if cut else st.integers(16, 18))
    clf = draw(st.booleans())
    leaf = gen.counts(2) if clf else gen.quarter(1)
    if not cut:
        ts = draw(gen.forest(d, 1, 2, 2, leaf, full=95, split=True))
        C = [g for g in draw(gen.coalitions(d, 50)) if g] or [[]]
    else:  # fifteen variables are tested at least twice each, the others at most once; most of them are grouped
        perm = list(draw(st.permutations(range(d))))
        heavy, light = perm[:15], perm[15:]
        n_l = draw(st.integers(1, len(light)))
        hs = list(draw(st.permutations(heavy * 2 + heavy[:5 - n_l])))
        ts = []
        for i in range(5):
            fs = [light[i] if i < n_l else hs.pop()] + [hs.pop() for _ in range(6)]  # a light one: next to the leaves
            t = [['L', draw(leaf)] for _ in range(8)]
            while len(t) > 1:
                t = [['S', fs.pop(0), 2 * draw(st.integers(0, gen.G - 1)) + draw(st.integers(0, 1)), a, b]
                     for a, b in zip(t[::2], t[1::2])]
            ts += t
        rest = list(draw(st.permutations(heavy)))
        one, rest = rest[:draw(st.integers(1, 3))], rest[3:]
        alone = draw(st.integers(1, len(light)))
        rest += light[alone:]
        k = draw(st.integers(2, 3))
        C = [g for g in (rest[i::k] for i in range(k)) if g]
        if gen.chance(draw, 30) and alone < len(light):  # a group of variables the search leaves out
            C = [[v for v in g if v not in light] for g in C] + [light[alone:]]
    D = draw(gen.rows(2, 5, d))
    X = [[draw(st.sampled_from([u, u, v])) for u, v in zip(D[0], D[-1])] for _ in range(draw(st.integers(1, 2)))]
    return {'form': 'sk_clf' if clf else 'sk_reg', 'd': d, 'k': 2 if clf else 1, 'order': 'dfs', 'trees': ts, 'data': D, 'X': X, 'C': C,
            'pi': draw(st.sampled_from([0.4, 0.5, 0.8, 1.0])), 'min': draw(st.sampled_from([0, 1, 1, 2])),
            'stop': draw(st.booleans()), 't': draw(st.sampled_from([0.0, 0.25, 1.0])), 'own': draw(st.booleans())}


def tree_wide_run(c, ctx):
    b = Built(c)
    n = {}  # counted over the leaves

    def count(t, i, path):
        if t['children_left'][i] < 0:
            for f in path:
                n[f] = n.get(f, 0) + 1
        else:
            path = path | {int(t['features'][i])}
            count(t, t['children_left'][i], path)
            count(t, t['children_right'][i], path)

    for t in b.trees:
        count(t, 0, frozenset())
    space = sorted(n, key=lambda v: -n[v])
    if len(space) > 15 and n[space[14]] == n[space[15]]:  # the fifteen variables are not determined
        raise Skip()
    pl = space_players(space[:15], c['C'])
    if c['min'] > len(pl) or len(pl) > 8:
        raise Skip()
    M = Marginal(b.X, b.data, c['d'], pl)
    kt = {} if b.clf else {'threshold': c['t']}
    m = 'importance_msdp_' + ('clf' if b.clf else 'reg')
    r = b.run(ctx, [{'op': 'call', 'obj': 'm', 'm': 'predict', 'a': [M.rows]},
                    call(m, b.X, b.data, model=None if c['own'] else ('__ref__', 'm'), C=c['C'], pi_level=c['pi'],
                         minimal=c['min'], stop=c['stop'], **kt)])
    M.fill(r[0], None if b.clf else c['t'])
    ctx.label('cut' if len(space) > 15 else 'uncut')
    ctx.nontrivial = judge_search(m, r[1], pl, M, c['d'], M.n, c['pi'], c['min'], c['stop'], half=c['d'] / 2., eps=0.,
                                  ctx=ctx)


RULE = ('Tree models and black-box functions over 1-5 integer features, 1-9 background rows, 1-3 rows, any subset, groups, levels '
        '(including values a share can equal exactly), starting sizes, search spaces, tolerances. The decisions for every '
        'subset are asked from the model itself, so no comparison is rounded. Non-trivial: the SDP of the drawn subset '
        'lies strictly between 0 and 1 and the search had to choose.')
FACETS = [Facet('clf', case, run, quick=500, thorough=15000, shards=6),
          Facet('reg', lambda: case(reg=True), lambda c, ctx: run(c, ctx, True), quick=500, thorough=15000, shards=6),
          Facet('groups', lambda: case(d=(6, 7), groups=95, X=(4, 8)), run, quick=200, thorough=6000, shards=4),
          Facet('groups_reg', lambda: case(reg=True, d=(6, 7), groups=95, X=(4, 8)), lambda c, ctx: run(c, ctx, True), quick=200,
                thorough=6000, shards=4),
          Facet('pool', pool_case, pool_run, quick=16, thorough=400, shards=4),
          Facet('tree_wide', tree_wide_case, tree_wide_run, quick=80, thorough=2000, shards=4),
          Facet('wide', wide_case, wide_run, quick=2, thorough=40, shards=2)]
