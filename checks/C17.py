"""C17: all sufficient explanations are exactly the inclusion-minimal sufficient sets."""
import itertools

import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.C08 import space_players
from checks.common import call, close
from harness import Facet, Skip, Violation

PROP = 'C17'
EPS = 1e-9
LEVELS = [0.3, 0.4, 0.6, 0.8, 0.9, 0.95, 0.999]


@st.composite
def search(draw, c):
    c['C'] = draw(gen.coalitions(c['d'], 35))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    c['default'] = gen.chance(draw, 20)
    return c


@st.composite
def case(draw):
    return draw(search(draw(agn_case(['acx', 'acx', 'tree', 'agn'], unit=True, d_hi=5, X=(1, 4), nmin=(1, 1, 2, 3), full=85,
                                     sets=False, data=(4, 16)))))


def judge(site, res, a, c, players, value, ctx):
    """value(S, i): the probability of S for row i. Returns the explanations (None if some row is not judged)."""
    if not isinstance(res, (tuple, list)) or len(res) != 3:
        raise Violation(site, 'expected 3 results')
    expl, vals, glob = res[0], res[1], np.asarray(res[2], dtype=float)
    if len(expl) != a.n or len(vals) != a.n:
        raise Violation(site, '%d rows: %d lists of explanations, %d of values' % (a.n, len(expl), len(vals)))
    clear, total, counts = True, 0, np.zeros(a.d)
    for i in range(a.n):
        if len(expl[i]) != len(vals[i]):
            raise Violation(site, 'row %d: %d explanations, %d values' % (i, len(expl[i]), len(vals[i])))
        got = {}
        for S, v in zip(expl[i], vals[i]):
            S = [int(s) for s in S]
            if len(set(S)) != len(S) or any(not 0 <= s < a.d for s in S):
                raise Violation(site, 'row %d: %s is not a set of variables' % (i, S))
            if frozenset(S) in got:
                raise Violation(site, 'row %d: %s is reported twice' % (i, S))
            got[frozenset(S)] = float(v)
            total += 1
            for s in S:
                counts[s] += 1
        want, ok = {}, True
        for m in range(c['min'], len(players) + 1):
            for co in itertools.combinations(players, m):
                T = frozenset(v for g in co for v in g)
                p = value(sorted(T), i)
                if abs(p - c['pi']) < EPS:
                    ok = False
                if p >= c['pi'] and not any(U <= T for U in want):
                    want[T] = p
        if not ok:
            clear = False
            continue
        if set(got) != set(want):
            raise Violation(site, 'row %d: reports %s; the minimal sufficient sets are %s'
                            % (i, sorted(map(sorted, got)), sorted(map(sorted, want))))
        for T in want:
            if not close(got[T], want[T]):
                raise Violation(site, 'row %d: reports %r for %s, which has %r' % (i, got[T], sorted(T), want[T]))
        if len(want) > 1:
            ctx.label('several explanations')
        if not want:
            ctx.label('no explanation')
    if total and not close(glob, counts / total):
        raise Violation(site, 'frequencies %s, not %s' % (glob.tolist(), (counts / total).tolist()))
    return clear


def local(a, expl):
    """Mean over the explained rows of the frequency of each variable."""
    fs = [np.array([sum(v in S for S in e) for v in range(a.d)]) / float(len(e)) for e in expl if len(e)]
    return sum(fs) / len(fs) if fs else None


def both(a, c, players, ctx, t):
    """Run and judge the entry points of the case."""
    k = dict(min_node_size=c['nmin'], C=c['C'], pi_level=c['pi'], minimal=c['min'], stop=c['stop'])
    if c['form'] in ('acx', 'ranger'):
        steps = [call('sufficient_expl_rf', a.X, a.y, a.data, a.yd, t=t, **k),
                 call('sufficient_cxpl_rf', a.X, a.y, a.data, a.yd, t=t, **k)]
        tt = a.default_t() if t is None and not a.clf else a.t
    else:
        tt = a.t
        arg = dict(t=np.zeros((a.n, 2)) if a.clf else a.t)
        if c['default']:
            arg, tt = ({}, None) if a.clf else (dict(t=0.75), np.stack([a.y - 0.75, a.y + 0.75], axis=1))
        steps = [call('sufficient_expl_rf', a.X, a.y, a.data, a.yd, classifier=a.cls, **arg, **k)]
    r = a.run(ctx, steps)
    same = [a.same(i, tt) for i in range(a.n)]
    judge('sufficient_expl_rf', r[0], a, c, players, lambda S, i: a.ref.stat(a.X[i], S, same[i]), ctx)
    if len(r) > 1:
        judge('sufficient_cxpl_rf', r[1], a, c, players, lambda S, i: a.ref.stat(a.X[i], S, 1 - same[i]), ctx)
    # the local importance
    f = 'ACXplainer' if len(r) > 1 else 'ACVTreeAgnostic'
    for res in r:
        expl = res[0]
        if f == 'ACXplainer':
            w = local(a, expl)
            g = a.run(ctx, [call('compute_local_sdp', a.d, expl)])[0]
            if w is not None and not close(g, w):
                raise Violation('compute_local_sdp', '%s for %s, not %s' % (np.asarray(g).tolist(), expl, w.tolist()))
        else:
            for e in expl:
                if len(e):
                    g = ctx.values([{'op': 'fn', 'f': 'acv_explainers:ACVTreeAgnostic.compute_local_sdp', 'a': [a.d, e]}])[0]
                    w = local(a, [e])
                    if not close(g, w):
                        raise Violation('compute_local_sdp', '%s for %s, not %s' % (np.asarray(g).tolist(), e, w.tolist()))
    ctx.label('form:' + c['form'], 'clf' if a.clf else 'reg', 'groups' if c['C'] != [[]] else 'no groups')
    # non-trivial: some row has an explanation that is neither empty nor everything
    ctx.nontrivial = any(0 < len(S) < a.d for res in r for e in res[0] for S in e)


def run(c, ctx):
    a = Agn(c)
    pl = O.groups(a.d, c['C'])
    if c['min'] > len(pl):
        raise Skip()
    both(a, c, pl, ctx, None if a.clf or c['default'] else a.t)


@st.composite
def ranger_search(draw):
    return draw(search(draw(ranger_case(d=(2, 5)))))


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    pl = O.groups(a.d, c['C'])
    if c['min'] > len(pl):
        raise Skip()
    both(a, c, pl, ctx, a.t)


@st.composite
def wide_case(draw):
    c = draw(agn_case(['acx', 'tree', 'tree', 'agn'], d_lo=11, d_hi=12, X=(1, 2), nmin=(1, 2), full=90, trees=2, depth=2,
                      sets=False, data=(4, 10)))
    c = draw(search(c))
    c['min'] = 1
    c['imp'] = list(draw(st.permutations(range(1, c['d'] + 1))))
    c['C'] = [g for g in c['C'] if len(g)] or [[]]
    c['model'] = 'sk' if c['form'] == 'acx' else draw(st.sampled_from(['sk', 'dict']))
    return c


class Relevant(object):
    """The reference, with the sets reduced to the variables some split tests."""

    def __init__(self, ref, used):
        self.ref, self.used, self.c = ref, used, {}

    def stat(self, x, S, g):
        k = (tuple(x), tuple(s for s in S if s in self.used), g.tobytes())
        if k not in self.c:
            self.c[k] = self.ref.stat(x, k[1], g)
        return self.c[k]


def wide_run(c, ctx):
    a = Agn(c)
    a.ref = Relevant(a.ref, set(int(f) for t in a.trees for f, l in zip(t['features'], t['children_left']) if l >= 0))
    space = a.wide_space(ctx)
    ctx.label('form:%s %s' % (c['form'], c['model']))
    both(a, c, space_players(space, c['C']), ctx, None if a.clf or c['default'] else a.t)


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(['acx', 'acx', 'tree', 'agn'], d=(3, 6), trees=(1, 6), depth=(2, 5), N=(60, 300),
                                 n=(1, 3)))}
    c.update(C=draw(gen.coalitions(c['bulk']['d'], 30)), pi=draw(st.sampled_from(LEVELS)),
             min=draw(st.sampled_from([0, 1, 1, 1])), stop=draw(st.booleans()))
    return c


RULE = ('Forests as in C12 over 1-5 variables with optional groups (or 11-12, searched over the ten most important or the tested), '
        'levels 0.3-0.999, starting sizes 0-2: sufficient_expl_rf of the three explainers and sufficient_cxpl_rf, '
        'compared with the enumeration of every coalition; then the local importance of what they return. Non-trivial: '
        'some explanation is neither empty nor all the variables.')
FACETS = [Facet('sets', case, run, quick=800, thorough=40000, shards=6),
          Facet('ranger', ranger_search, ranger_run, quick=200, thorough=8000, shards=4),
          Facet('wide', wide_case, wide_run, quick=64, thorough=2000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=36, thorough=1000, shards=6)]
