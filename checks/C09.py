"""C09: swing values are the Shapley values of the sufficiency game, with the swing counts."""
import itertools
from math import comb

import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.common import Built, S_arr, arr, call, forest_case, proba
from checks.C06 import GB, boosted_case
from checks.C07 import tied
from harness import Facet, Violation

PROP = 'C09'


def swing_ref(players, game, d, n):
    """game(S): per row 0/1, or None when not judged. Per row (phi, swings, counts) or None."""
    m = len(players)
    out = []
    cache = {}

    def g(idx):
        if idx not in cache:
            cache[idx] = game(sorted(v for k in idx for v in players[k]))
        return cache[idx]
    for i in range(n):
        phi, sw, ct = np.zeros(d), np.zeros((d, 2)), np.zeros((d, 3))
        ok = True
        for p in range(m):
            rest = [q for q in range(m) if q != p]
            for r in range(m):
                for S in itertools.combinations(rest, r):
                    a, b = g(frozenset(S + (p,)))[i], g(frozenset(S))[i]
                    if a is None or b is None:
                        ok = False
                        continue
                    w = (a - b) / (m * comb(m - 1, r))
                    for v in players[p]:
                        phi[v] += w
                        sw[v, 0] += max(w, 0)
                        sw[v, 1] += min(w, 0)
                        ct[v, 0 if a > b else 1 if a < b else 2] += 1
        out.append((phi, sw, ct) if ok else None)
    return out


def judge_swing(site, res, want, d, n, game_all=None):
    if not isinstance(res, (tuple, list)) or len(res) != 3:
        raise Violation(site, 'expected 3 results')
    got = [np.asarray(r, dtype=float) for r in res]
    for g, sh in zip(got, [(n, d), (n, d, 2), (n, d, 3)]):
        if g.shape != sh:
            raise Violation(site, 'shape %s, expected %s' % (g.shape, sh))
    for i, w in enumerate(want):
        if w is None:
            continue
        for nm, g, x in zip(('values', 'swings', 'counts'), got, w):
            if not np.allclose(g[i], x, atol=1e-9):
                raise Violation(site, 'row %d: %s %s, expected %s' % (i, nm, g[i].tolist(), x.tolist()))


def pays(vals, thr):
    return [None if v is None or abs(v - thr) < 1e-7 else float(v >= thr) for v in vals]


THR = [0.3, 0.5, 0.7, 0.9, 0.97]


@st.composite
def case(draw):
    c = draw(forest_case(['sk_clf', 'sk_clf', 'dt_clf'], d_lo=1, d_hi=4, trees=3, depth=3, data=(3, 12), full=88))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['thr'] = draw(st.sampled_from(THR))
    return c


def steps(c, X, data):
    k = dict(C=c['C'], thresholds=c['thr'])
    return [call('swing_sv_clf', X, data, **k), call('swing_sv_clf_nopa', X, data, **k),
            call('swing_sv_clf_slow', X, data, **k), call('demo_swing_sv_clf', X, data, c['C']),
            call('demo_swing_sv_clf_cat', X, data, c['C']),
            call('py_swing_sv_clf', X, data, c['thr'], c['C'])]


def judge(c, F, fx, fd, r, ctx):
    d, n, pl = F.d, F.n, O.groups(F.d, c['C'])

    def ref(mode, thr):
        return swing_ref(pl, lambda S: pays(O.sdp_clf(F, S, fx, fd, mode), thr), d, n)
    leaf, plain = ref('leaf', c['thr']), ref('leaf_plain', c['thr'])
    judge_swing('swing_sv_clf', r[0], leaf, d, n)
    judge_swing('swing_sv_clf_nopa', r[1], leaf, d, n)
    judge_swing('swing_sv_clf_slow', r[2], plain, d, n)
    judge_swing('demo_swing_sv_clf', r[3], ref('leaf', 0.9), d, n)
    judge_swing('demo_swing_sv_clf_cat', r[4], ref('discrete', 0.9), d, n)
    judge_swing('py_swing_sv_clf', r[5], leaf, d, n)
    for w in leaf:
        if w is not None:
            if (w[2][:, 1] > 0).any():
                ctx.label('negative swings')
            if (w[2][:, 0] > 0).sum() > 1:
                ctx.label('several variables swing')
                ctx.nontrivial = True


def run(c, ctx):
    b = Built(c)
    r = b.run(ctx, [proba('m', b.X), proba('m', b.data)] + steps(c, b.X, b.data))
    judge(c, b.F, np.argmax(r[0], axis=1), np.argmax(r[1], axis=1), r[2:], ctx)


@st.composite
def bst_case(draw):
    c = draw(boosted_case())
    c['C'] = draw(gen.coalitions(c['d'], 30))
    c['thr'] = draw(st.sampled_from(THR))
    return c


def bst_run(c, ctx):
    g = GB(c, ctx, steps(c, arr(c['X'], c['d']), arr(c['data'], c['d'])))
    judge(c, g.F, g.fx, g.fd, g.r, ctx)


@st.composite
def reg_case(draw):
    c = draw(forest_case(['sk_reg', 'dt_reg', 'dict1'], d_lo=1, d_hi=4, trees=2, depth=3, data=(3, 10), full=85))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['thr'] = draw(st.sampled_from(THR))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    return c


def reg_run(c, ctx):
    b = Built(c)
    r = b.run(ctx, [call('predict', b.X), call('predict', b.data),
                    call('py_swing_sv_reg', b.X, b.data, c['thr'], c['C'], tX=c['t'])])
    fx, fd = (np.asarray(x, dtype=float).reshape(-1) for x in r[:2])
    if tied(fx, fd, c['t']):
        return
    want = swing_ref(O.groups(c['d'], c['C']),
                     lambda S: pays([w for w, _ in O.sdp_reg(b.F, S, fx, fd, c['t'], 'leaf')], c['thr']), c['d'], b.F.n)
    judge_swing('py_swing_sv_reg', r[2], want, c['d'], b.F.n)
    ctx.nontrivial = any(w is not None and (w[2][:, 0] > 0).sum() > 1 for w in want)


RULE = ('Classification forests of 1-3 trees of depth <= 3 over 1-4 integer features (and fitted gradient boosting '
        'classifiers; regression forests for the Python implementation), 3-12 background rows, 1-3 rows, five '
        'thresholds, optional groups. Rows for which some coalition\'s SDP is not determined or within 1e-7 of the '
        'threshold are not judged. Non-trivial: at least two variables make some coalition sufficient.')
FACETS = [Facet('forest', case, run, quick=500, thorough=12000, shards=6),
          Facet('boosted', bst_case, bst_run, quick=100, thorough=3000, shards=4),
          Facet('reg', reg_case, reg_run, quick=120, thorough=3000, shards=4)]
