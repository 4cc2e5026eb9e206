"""C16: minimal sufficient and divergent explanations of the projected forests are smallest and correct."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.C08 import LEVELS, Memo, judge_search, space_players
from checks.C14 import box
from checks.common import call
from harness import Facet, Skip

PROP = 'C16'


@st.composite
def search(draw, c, C=35):
    q = st.integers(-8, 8).map(lambda v: v / 4.0)
    n, d = len(c['X']), c['d']
    c['down'] = draw(st.lists(q, min_size=n, max_size=n))
    c['up'] = [v + draw(st.integers(0, 8)) / 4.0 for v in c['down']]
    c['cond'] = [draw(box(d)) for _ in range(n)]
    c['C'] = draw(gen.coalitions(d, C))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    c['default'] = gen.chance(draw, 20)
    return c


@st.composite
def case(draw, forms):
    return draw(search(draw(agn_case(forms, unit=True, d_hi=5, X=(1, 4), nmin=(1, 1, 2, 3), full=85, sets=False, data=(4, 16)))))


def judge_all(a, c, names, results, t, players, space=None, ctx=None):
    """names: the entry points; results: what they returned."""
    d, n, R = a.d, a.n, a.ref
    allv = set(range(d))
    down, up, cond = np.array(c['down']), np.array(c['up']), gen.units(c, np.array(c['cond'], dtype=float))
    same = [a.same(i, t) for i in range(n)]
    near = [same[i] if a.clf else (a.y[i] - a.yd) ** 2 <= 0.3 for i in range(n)]
    inside = [same[i] if a.clf else (down[i] <= a.yd) & (a.yd <= up[i]) for i in range(n)]
    intv = lambda i: dict(cond=cond[i], cut_S=False)  # noqa
    f = {
        'importance_sdp_rf': lambda S, i: R.stat(a.X[i], S, same[i]),
        'importance_ddp_rf': lambda S, i: R.stat(a.X[i], allv - set(S), 1 - same[i]),
        'importance_cdp_rf': lambda S, i: R.stat(a.X[i], allv - set(S), inside[i]),
        'importance_ddp_intv': lambda S, i: R.stat(a.X[i], S, 1 - same[i], **intv(i)),
        'importance_cdp_intv': lambda S, i: R.stat(a.X[i], S, same[i], **intv(i)),
        'importance_sdp_rf_v0': lambda S, i: R.stat(a.X[i], S, near[i], order='list'),
    }
    nt = False
    for m, r in zip(names, results):
        value = Memo(lambda S, m=m: [f[m](S, i) for i in range(n)])
        nt = judge_search(m, r, players, value, d, n, c['pi'], c['min'], c['stop'], ctx=ctx) or nt
    return nt


def acx_steps(a, c, t):
    k = dict(min_node_size=c['nmin'], t=t, C=c['C'], pi_level=c['pi'], minimal=c['min'], stop=c['stop'])
    b, cond = (a.data, a.yd), gen.units(c, np.array(c['cond'], dtype=float))
    return [call('importance_sdp_rf', a.X, a.y, *b, **k), call('importance_ddp_rf', a.X, a.y, *b, **k),
            call('importance_cdp_rf', a.X, a.y, np.array(c['down']), np.array(c['up']), *b, **k),
            call('importance_ddp_intv', a.X, a.y, *b, cond, **k), call('importance_cdp_intv', a.X, a.y, *b, cond, **k)]


def tree_steps(a, c):
    """ACVTree, ACVTreeAgnostic; sets a.t when the level of variation is given as a number."""
    k = dict(min_node_size=c['nmin'], classifier=a.cls, C=c['C'], pi_level=c['pi'], minimal=c['min'], stop=c['stop'])
    t = np.zeros((a.n, 2)) if a.clf else a.t
    if c['default'] and not a.clf:
        t, a.t = 0.75, np.stack([a.y - 0.75, a.y + 0.75], axis=1)
    kt = {} if a.clf and c['default'] else dict(t=t)
    steps = [call('importance_sdp_rf', a.X, a.y, a.data, a.yd, **kt, **k)]
    if c['form'] == 'agn':
        steps.append(call('importance_sdp_rf_v0', a.X, a.y, a.data, a.yd, t=0.3, **k))
    return steps


def run(c, ctx):
    a = Agn(c)
    pl = O.groups(a.d, c['C'])
    if c['min'] > len(pl):
        raise Skip()
    t = None
    if c['form'] == 'acx':
        t = None if a.clf or c['default'] else a.t
        steps = acx_steps(a, c, t)
        t = a.default_t() if t is None and not a.clf else a.t
    else:
        steps = tree_steps(a, c)
    r = a.run(ctx, steps)
    nt = judge_all(a, c, [s['m'] for s in steps], r, t, pl, ctx=ctx)
    ctx.label('form:' + c['form'], 'clf' if a.clf else 'reg', 'groups' if c['C'] != [[]] else 'no groups')
    ctx.nontrivial = nt


@st.composite
def ranger_search(draw):
    return draw(search(draw(ranger_case(d=(2, 5)))))


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    pl = O.groups(a.d, c['C'])
    if c['min'] > len(pl):
        raise Skip()
    steps = acx_steps(a, c, a.t)
    ctx.nontrivial = judge_all(a, c, [s['m'] for s in steps], a.run(ctx, steps), a.t, pl, ctx=ctx)


@st.composite
def wide_case(draw):
    """More than ten variables: the search is over the ten most important (or the tested) ones."""
    c = draw(agn_case(['acx', 'acx', 'tree', 'agn'], d_lo=11, d_hi=13, X=(1, 2), nmin=(1, 2), full=90, trees=2,
                      depth=2, sets=False, data=(4, 10)))
    c = draw(search(c, 30))
    c['stop'], c['min'] = True, 1
    c['pi'] = draw(st.sampled_from([0.4, 0.6, 0.8]))
    c['imp'] = list(draw(st.permutations(range(1, c['d'] + 1))))
    c['C'] = [g for g in c['C'] if len(g)] or [[]]
    c['model'] = 'sk' if c['form'] == 'acx' else draw(st.sampled_from(['sk', 'dict']))
    return c


def wide_run(c, ctx):
    a = Agn(c)
    space = a.wide_space(ctx)
    t = None
    if c['form'] == 'acx':
        t = None if a.clf or c['default'] else a.t
        steps = acx_steps(a, c, t)
        t = a.default_t() if t is None and not a.clf else a.t
    else:
        steps = tree_steps(a, c)
    pl = space_players(space, c['C'])
    ctx.label('form:%s %s' % (c['form'], c['model']))
    ctx.nontrivial = judge_all(a, c, [s['m'] for s in steps], a.run(ctx, steps), t, pl, ctx=ctx)


@st.composite
def big_case(draw):
    c = {'bulk': draw(bulk.shape(['acx', 'acx', 'tree', 'agn'], d=(3, 6), trees=(1, 6), depth=(2, 5), N=(60, 300),
                                 n=(1, 3)))}
    c.update(C=draw(gen.coalitions(c['bulk']['d'], 30)), pi=draw(st.sampled_from(LEVELS)),
             min=draw(st.sampled_from([0, 1, 1, 1])), stop=draw(st.booleans()))
    return c


RULE = ('Forests as in C12 over 1-5 variables with optional groups, levels 0.4-0.999, starting sizes 0-2, both stop '
        'options: sufficient, divergent, interval-divergent and regional searches of ACXplainer, of ACVTree and '
        'ACVTreeAgnostic; forests grown by ranger; and 11-13 variables, where the search space is the ten most important '
        'or the tested ones. Every coalition of the searched sizes is valued by the reference. Non-trivial: the sets '
        'of some row are not all alike (some of the first size are below the level, or the first size is not enough).')
FACETS = [Facet('acx', lambda: case(['acx']), run, quick=700, thorough=40000, shards=6),
          Facet('tree', lambda: case(['tree', 'agn']), run, quick=500, thorough=30000, shards=4),
          Facet('ranger', ranger_search, ranger_run, quick=150, thorough=8000, shards=4),
          Facet('wide', wide_case, wide_run, quick=80, thorough=2000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=36, thorough=1000, shards=6)]
