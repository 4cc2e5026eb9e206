"""C14: the weights attached to a row are a distribution over its cells, and reproduce the estimate."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.common import call, expect_close
from harness import Facet, Violation

PROP = 'C14'
BIG = 1e10


@st.composite
def box(draw, d):
    """A box over the variables: unbounded, half-bounded, an interval or a point in every variable."""
    b = []
    for _ in range(d):
        lo2, w2 = draw(st.integers(-1, 2 * gen.G)), draw(st.integers(0, 5))
        kind = draw(st.integers(0, 3))
        b.append([-BIG if kind in (0, 1) else lo2 / 2., BIG if kind in (0, 2) else (lo2 + w2) / 2.])
    return b


@st.composite
def case(draw):
    c = draw(agn_case(['acx'], unit=True))
    q = st.integers(-8, 8).map(lambda v: v / 4.0)
    n = len(c['X'])
    c['down'] = draw(st.lists(q, min_size=n, max_size=n))
    c['up'] = [v + draw(st.integers(0, 8)) / 4.0 for v in c['down']]
    c['cond'] = [draw(box(c['d'])) for _ in range(n)]
    c['default'] = gen.chance(draw, 20)
    return c


def calls(a, c, t, down, up, cond):
    base = (a.X, a.y, a.data, a.yd, c['S'])
    cdp = (a.X, a.y, down, up, a.data, a.yd, c['S'])
    same = (a.X, a.y, a.data, a.yd, c['S'][0], cond)
    k = dict(min_node_size=c['nmin'], t=t)
    return [call('compute_ddp_weights', *base, **k), call('compute_ddp_weights', *base, verbose=True, **k),
            call('compute_cdp_weights', *cdp, **k), call('compute_cdp_weights', *cdp, verbose=True, **k),
            call('compute_ddp_cond_weights', *base, cond, **k), call('compute_cdp_cond_weights', *cdp, cond, **k),
            call('compute_ddp_intv_weights', *base, cond, **k), call('compute_cdp_intv_weights', *base, cond, **k),
            call('compute_ddp_intv_same', *same, **k), call('compute_cdp_intv_same', *same, **k)]


def judge(a, c, steps, r, t, down, up, cond):
    R = a.ref
    for j, s in enumerate(steps):
        m = s['m']
        kind = 'cond' if '_cond_' in m else 'intv' if '_intv_' in m else ''
        for i in range(a.n):
            S = c['S'][0] if m.endswith('_same') else c['S'][i]
            k = dict(cond=cond[i], cut_S=kind == 'cond') if kind else {}
            cells = R.cells(a.X[i], S, **k)
            w = R.weights(a.X[i], S, **k)
            full = sum(1. for z in cells if not z.low) / len(cells)
            agree = a.same(i, t)
            if m.startswith('compute_ddp'):
                g = 1 - agree
            elif kind == 'intv' or a.clf:
                g = agree
            else:
                g = ((down[i] <= a.yd) & (a.yd <= up[i])).astype(float)
            val = r[j] if m.endswith('_same') else r[j][0]
            if not m.endswith('_same'):
                W = np.asarray(r[j][1])
                if W.shape != (a.n, len(a.data)):
                    raise Violation(m, 'weights of shape %s' % (W.shape,))
                if (W[i] < 0).any():
                    raise Violation(m, 'a negative weight')
                expect_close(m, W[i].sum(), full, what='the sum of the weights')
                expect_close(m, W[i].dot(g), val[i], what='the share of the outputs under the weights')
                expect_close(m, W[i], w, what='the weights of row %d' % i)
            expect_close(m, val[i], w.dot(g), what='the estimate of row %d' % i)


def run(c, ctx):
    a = Agn(c)
    t = None if c['clf'] or c['default'] else a.t
    down, up, cond = np.array(c['down']), np.array(c['up']), gen.units(c, np.array(c['cond'], dtype=float))
    steps = calls(a, c, t, down, up, cond)
    judge(a, c, steps, a.run(ctx, steps), a.default_t() if t is None and not a.clf else a.t, down, up, cond)
    a.classify(ctx)
    if any(z.splits for i in range(a.n) for z in a.ref.cells(a.X[i], c['S'][i], cond=cond[i], cut_S=False)):
        ctx.label('a condition selects')


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    rng = np.random.RandomState(c['params']['seed'] % 1000)
    down = a.y - 1
    cond = np.stack([a.X - rng.randint(0, 3, a.X.shape), a.X + rng.randint(0, 3, a.X.shape)], axis=2)
    steps = calls(a, c, a.t, down, a.y, cond)
    judge(a, c, steps, a.run(ctx, steps), a.t, down, a.y, cond)
    a.classify(ctx)


@st.composite
def big_case(draw):
    return {'bulk': draw(bulk.shape(['acx'], d=(2, 10), trees=(1, 10), depth=(2, 6), N=(80, 400)))}


RULE = ('The cases of C12 for ACXplainer, with a box per row (unbounded, half-bounded, an interval or a point in each '
        'variable, ends on and between thresholds) for the conditioned and intervened weights; forests grown by '
        'ranger. Non-trivial: some cell holds some but not all training rows.')
FACETS = [Facet('weights', case, run, quick=1200, thorough=50000, shards=6),
          Facet('ranger', ranger_case, ranger_run, quick=250, thorough=10000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=48, thorough=1500, shards=6)]
