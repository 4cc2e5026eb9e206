"""C08: minimal sufficient explanations of tree models are smallest and sufficient."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.common import Built, arr, call, forest_case, proba
from checks.C06 import GB, boosted_case
from checks.C07 import tied
from harness import Facet, Skip, Violation

PROP = 'C08'
EPS = 1e-8


def judge_search(site, res, players, value, d, n, pi, minimal, stop, above_only=False, ctx=None, half=None, eps=EPS):
    """res: (importance, sets, sizes, values). value(S): per row, the SDP of S (None: not judged)."""
    if not isinstance(res, (tuple, list)) or len(res) != 4:
        raise Violation(site, 'expected 4 results')
    glob, star, size, sdp = (np.asarray(r) for r in res)
    if star.shape != (n, d) or size.shape != (n,) or sdp.shape != (n,) or glob.shape != (d,):
        raise Violation(site, 'shapes %s' % ([r.shape for r in (glob, star, size, sdp)],))
    counts = np.zeros(d)
    for i in range(n):
        k = int(size[i])
        if not 0 <= k <= d or any(star[i, k:] != -1) or any(star[i, :k] < 0) or any(star[i, :k] >= d) or \
                len(set(star[i, :k])) != k:
            raise Violation(site, 'row %d: set %s of size %s' % (i, list(star[i]), k))
        if sdp[i] >= pi:
            for v in star[i, :k]:
                counts[int(v)] += 1
    if not np.allclose(glob, counts / n, atol=1e-12):
        raise Violation(site, 'importance %s is not the frequency %s' % (list(glob), list(counts / n)))
    nontriv = False
    for i in range(n):
        S = frozenset(int(v) for v in star[i, :int(size[i])])
        found, seen, judged = None, {}, True
        for m in range(minimal, len(players) + 1):
            level = {}
            for co in itertools.combinations(players, m):
                T = frozenset(v for g in co for v in g)
                level[T] = 1. if len(T) == d else value(T)[i]
                last = len(T)
            if any(v is None for v in level.values()):
                judged = False
                break
            best = max(level.values())
            if abs(best - pi) < eps:
                judged = False
                break
            seen.update(level)
            if best >= pi:
                found = (m, best, level)
                break
            if stop and last >= (d // 2 if half is None else half):
                break
        if not judged:
            continue
        if found is not None:
            m, best, level = found
            if ctx is not None:
                ctx.label('explained at %d players' % m)
            if S not in level:
                raise Violation(site, 'row %d: reports %s (SDP %r); the smallest sufficient sets have %d players, the '
                                'best one SDP %r' % (i, sorted(S), float(sdp[i]), m, best))
            if level[S] < best - EPS:
                raise Violation(site, 'row %d: reports %s with SDP %r, but %r is reached by a set of the same number of '
                                'players' % (i, sorted(S), level[S], best))
            if abs(sdp[i] - level[S]) > EPS:
                raise Violation(site, 'row %d: reports SDP %r for %s, which has %r' % (i, float(sdp[i]), sorted(S), level[S]))
            if m > minimal and len(S) < d:
                nontriv = True
            if len(level) > 1 and min(level.values()) < pi:
                nontriv = True
        else:
            if ctx is not None:
                ctx.label('not explained')
            best = max([0.] + [v for v in seen.values()])
            if above_only:
                if S or sdp[i] != 0:
                    raise Violation(site, 'row %d: no sufficient set, but %s (SDP %r) is reported' % (i, sorted(S), float(sdp[i])))
                continue
            if abs(sdp[i] - best) > EPS:
                raise Violation(site, 'row %d: no sufficient set; the best SDP is %r, reported %r for %s'
                                % (i, best, float(sdp[i]), sorted(S)))
            if (S or best > EPS) and (S not in seen or abs(seen[S] - best) > EPS):
                raise Violation(site, 'row %d: no sufficient set; reports %s (SDP %r), not one of the best (%r)'
                                % (i, sorted(S), seen.get(S), best))
            nontriv = nontriv or best > EPS
    return nontriv


class Memo(object):
    """value(S), with the sets reduced to the variables that matter."""

    def __init__(self, f, relevant=None):
        self.f, self.rel, self.c = f, relevant, {}

    def __call__(self, S):
        key = S if self.rel is None else S & self.rel
        if key not in self.c:
            self.c[key] = self.f(sorted(key))
        return self.c[key]


LEVELS = [0.4, 0.6, 0.8, 0.9, 0.95, 0.999]


@st.composite
def clf_case(draw):
    c = draw(forest_case(['sk_clf', 'sk_clf', 'dt_clf'], d_lo=1, d_hi=5, trees=3, depth=3, data=(3, 14), full=88))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    c['space'] = draw(gen.subset(c['d'], 1))
    return c


def space_players(space, C):
    if C == [[]]:
        return [[v] for v in space]
    used = set(v for g in C for v in g)
    return [[v] for v in space if v not in used] + [list(g) for g in C if set(g) & set(space)]


def clf_steps(c, X, data):
    k = dict(C=c['C'], pi_level=c['pi'], minimal=c['min'], stop=c['stop'])
    kn = dict(C=c['C'], pi_level=c['pi'], minimal=c['min'])
    return [call('importance_sdp_clf', X, data, **k), call('importance_sdp_clf_greedy', X, data, **k),
            call('importance_sdp_clf_nopa', X, data, **kn), call('importance_sdp_clf_ptrees', X, data, **k),
            call('importance_sdp_clf_search', X, data, search_space=list(c['space']), **k)]


def clf_judge(c, F, fx, fd, r, ctx):
    d, n, pl = F.d, F.n, O.groups(F.d, c['C'])
    sp = space_players(c['space'], c['C'])
    if c['min'] > min(len(pl), len(sp)):
        raise Skip()
    leaf = Memo(lambda S: O.sdp_clf(F, S, fx, fd, 'leaf', edges=False))
    plain = Memo(lambda S: O.sdp_clf(F, S, fx, fd, 'leaf_plain', edges=False, clip=False))
    a = (d, n, c['pi'], c['min'])
    nt = judge_search('importance_sdp_clf', r[0], pl, leaf, *a, stop=c['stop'], ctx=ctx)
    judge_search('importance_sdp_clf_greedy', r[1], pl, leaf, *a, stop=c['stop'])
    judge_search('importance_sdp_clf_nopa', r[2], pl, leaf, *a, stop=True)
    judge_search('importance_sdp_clf_ptrees', r[3], pl, plain, *a, stop=False, above_only=True)
    judge_search('importance_sdp_clf_search', r[4], sp, leaf, *a, stop=c['stop'])
    ctx.nontrivial = nt


def clf_run(c, ctx):
    b = Built(c)
    pl, sp = O.groups(c['d'], c['C']), space_players(c['space'], c['C'])
    if c['min'] > min(len(pl), len(sp)):
        raise Skip()
    r = b.run(ctx, [proba('m', b.X), proba('m', b.data)] + clf_steps(c, b.X, b.data))
    clf_judge(c, b.F, np.argmax(r[0], axis=1), np.argmax(r[1], axis=1), r[2:], ctx)


@st.composite
def bst_case(draw):
    c = draw(boosted_case())
    c['C'] = draw(gen.coalitions(c['d'], 30))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1]))
    c['stop'] = draw(st.booleans())
    c['space'] = draw(gen.subset(c['d'], 1))
    return c


def bst_run(c, ctx):
    g = GB(c, ctx, clf_steps(c, arr(c['X'], c['d']), arr(c['data'], c['d'])))
    clf_judge(c, g.F, g.fx, g.fd, g.r, ctx)


# ---- regression
@st.composite
def reg_case(draw):
    c = draw(forest_case(['sk_reg', 'sk_reg', 'dt_reg', 'dict1'], d_lo=1, d_hi=4, trees=3, depth=3, data=(3, 12),
                         full=80))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    return c


REG = ['importance_sdp_reg', 'importance_sdp_reg_nopa', 'importance_sdp_reg_cat', 'importance_sdp_reg_cat_nopa']


def reg_run(c, ctx):
    b = Built(c)
    pl = O.groups(c['d'], c['C'])
    if c['min'] > len(pl):
        raise Skip()
    k = dict(C=c['C'], pi_level=c['pi'], minimal=c['min'])
    r = b.run(ctx, [call('predict', b.X), call('predict', b.data)] +
              [call(m, b.X, c['t'], b.data, **(k if m.endswith('nopa') else dict(k, stop=c['stop']))) for m in REG])
    fx, fd = (np.asarray(x, dtype=float).reshape(-1) for x in r[:2])
    if tied(fx, fd, c['t']):
        raise Skip()
    leaf = Memo(lambda S: [w for w, _ in O.sdp_reg(b.F, S, fx, fd, c['t'], 'leaf')])
    disc = Memo(lambda S: [w for w, _ in O.sdp_reg(b.F, S, fx, fd, c['t'], 'discrete')])
    for m, g in zip(REG, r[2:]):
        nt = judge_search(m, g, pl, disc if '_cat' in m else leaf, c['d'], b.F.n, c['pi'], c['min'],
                          c['stop'] or m.endswith('nopa'), ctx=ctx if m == REG[0] else None)
        ctx.nontrivial = ctx.nontrivial or nt


# ---- more than 10 variables: the search is restricted to the 10 most frequent ones
@st.composite
def wide_case(draw):
    c = draw(forest_case(['sk_clf', 'dt_clf'], d_lo=11, d_hi=13, trees=3, depth=3, data=(4, 10), X=(1, 2), full=90))
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['stop'] = draw(st.booleans()) or len(c['C'][0]) > 0
    return c


def wide_run(c, ctx):
    b = Built(c)
    cnt = {}
    for t in b.trees:
        for vs in O.path_vars(t, c['d']):
            for v in vs:
                cnt[v] = cnt.get(v, 0) + 1
    order = sorted(cnt, key=lambda v: -cnt[v])
    if len(order) > 10 and cnt[order[9]] == cnt[order[10]]:
        raise Skip()
    r = b.run(ctx, [proba('m', b.X), proba('m', b.data),
                    call('importance_sdp_clf', b.X, b.data, C=c['C'], pi_level=c['pi'], stop=c['stop'])])
    fx, fd = np.argmax(r[0], axis=1), np.argmax(r[1], axis=1)
    leaf = Memo(lambda S: O.sdp_clf(b.F, S, fx, fd, 'leaf', edges=False), frozenset(order))
    ctx.nontrivial = judge_search('importance_sdp_clf', r[2], space_players(order[:10], c['C']), leaf, c['d'], b.F.n,
                                  c['pi'], 1, c['stop'], ctx=ctx)


# ---- more sets than are enumerated (2^15): the search ends with the size that reaches this number
@st.composite
def many_case(draw):
    clf = draw(st.booleans())
    c = draw(forest_case(['dt_clf'] if clf else ['dt_reg'], d_lo=17, d_hi=18, trees=1, depth=3, data=(4, 8), X=(1, 1), full=90))
    c['C'] = [[]]
    c['clf'] = clf
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    c['pi'] = draw(st.sampled_from([0.6, 0.9, 0.999, 1.5]))
    c['m'] = draw(st.sampled_from(['greedy', 'nopa', 'search'] if clf else REG))
    c['stop'] = draw(st.booleans())
    return c


def many_run(c, ctx):
    b = Built(c)
    d, used = c['d'], set()
    for t in b.trees:
        for vs in O.path_vars(t, d):
            used |= set(vs)
    k = dict(C=c['C'], pi_level=c['pi'], minimal=1)
    if not c['m'].endswith('nopa'):
        k['stop'] = c['stop']
    if c['clf']:
        m = 'importance_sdp_clf_' + c['m']
        if c['m'] == 'search':
            k['search_space'] = list(range(d))
        r = b.run(ctx, [proba('m', b.X), proba('m', b.data), call(m, b.X, b.data, **k)])
        fx, fd = np.argmax(r[0], axis=1), np.argmax(r[1], axis=1)
        value = Memo(lambda S: O.sdp_clf(b.F, S, fx, fd, 'leaf', edges=False), frozenset(used))
    else:
        m = c['m']
        r = b.run(ctx, [call('predict', b.X), call('predict', b.data), call(m, b.X, c['t'], b.data, **k)])
        fx, fd = (np.asarray(x, dtype=float).reshape(-1) for x in r[:2])
        if tied(fx, fd, c['t']):
            raise Skip()
        value = Memo(lambda S: [w for w, _ in O.sdp_reg(b.F, S, fx, fd, c['t'], 'discrete' if '_cat' in m else 'leaf')],
                     None if '_cat' in m else frozenset(used))
    top, total = 0, 1
    while total < 2 ** 15:
        top += 1
        total += math.comb(d, top)
    ctx.nontrivial = judge_search(m, r[2], [[v] for v in range(d)], value, d, b.F.n, c['pi'], 1,
                                  True, ctx=ctx, half=min(top, d) if not k.get('stop', True) else min(d // 2, top))
    ctx.label('m:' + m)


RULE = ('Forests of 1-3 trees of depth <= 3 over 1-5 integer features (11-13 in the wide facet), 3-14 background rows, '
        '1-3 rows, six levels, optional groups, starting sizes 0-2, with and without early stop, a random search space. '
        'Every coalition is evaluated by the reference estimator; rows whose best value is within 1e-8 of the level, or '
        'whose ratio is not determined (denominator within 1e-9 of zero) are not judged. Non-trivial: an explanation had '
        'to be chosen among sets on both sides of the level, or no set of the searched sizes reached it.')
FACETS = [Facet('clf', clf_case, clf_run, quick=500, thorough=16000, shards=6),
          Facet('boosted', bst_case, bst_run, quick=120, thorough=3000, shards=4),
          Facet('reg', reg_case, reg_run, quick=400, thorough=10000, shards=6),
          Facet('wide', wide_case, wide_run, quick=60, thorough=1200, shards=4),
          Facet('many', many_case, many_run, quick=16, thorough=400, shards=8)]
