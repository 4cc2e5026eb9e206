"""C12: projected-forest estimates are averages over the cells of the projected forest."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
import projected as P
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.common import call, expect_close
from harness import Facet, Violation

PROP = 'C12'


@st.composite
def case(draw, forms):
    c = draw(agn_case(forms, unit=True))
    q = st.integers(-8, 8).map(lambda v: v / 4.0)
    n = len(c['X'])
    c['down'] = draw(st.lists(q, min_size=n, max_size=n))
    c['up'] = [v + draw(st.integers(0, 8)) / 4.0 for v in c['down']]
    c['th'] = draw(st.lists(q, min_size=n, max_size=n))
    c['default'] = gen.chance(draw, 25)
    return c


def acx_run(c, ctx):
    a = Agn(c)
    base = (a.X, a.y, a.data, a.yd, c['S'])
    nm = c['nmin']
    t = None if c['clf'] or c['default'] else a.t
    down, up = np.array(c['down']), np.array(c['up'])
    th = None if c['default'] else np.array(c['th'])
    r = a.run(ctx, [call('compute_sdp_rf', *base, min_node_size=nm, t=t),
                    call('compute_ddp_rf', *base, min_node_size=nm, t=t),
                    call('compute_cdp_rf', a.X, a.y, down, up, a.data, a.yd, c['S'], min_node_size=nm, t=t),
                    call('compute_exp_rf', *base, min_node_size=nm, t=t),
                    call('compute_cdf_rf', *base, min_node_size=nm, t=th)])
    tt = a.default_t() if t is None and not a.clf else a.t
    want = [[], [], [], [], []]
    for i in range(a.n):
        x, S = a.X[i], c['S'][i]
        same = a.same(i, tt)
        full = sum(1. for z in a.ref.cells(x, S) if not z.low) / len(a.trees)
        s = a.ref.stat(x, S, same)
        want[0].append(s)
        want[1].append(full - s)
        want[2].append(s if a.clf else a.ref.stat(x, S, (down[i] <= a.yd) & (a.yd <= up[i])))
        want[3].append(a.ref.stat(x, S, a.yd))
        want[4].append(a.ref.stat(x, S, a.yd <= (a.y[i] if th is None else th[i]), order='list'))
    for name, g, w in zip(('compute_sdp_rf', 'compute_ddp_rf', 'compute_cdp_rf', 'compute_exp_rf', 'compute_cdf_rf'),
                          r, want):
        expect_close(name, g, w)
    # the cell of the tree itself
    ones = [list(range(c['d']))] * a.n
    g = a.run(ctx, [call('compute_exp_rf', a.X, a.y, a.data, a.yd, ones, min_node_size=1, t=t)])[0]
    for i in range(a.n):
        tot, ok = 0., True
        for tr in a.trees:
            m = O.route(tr, a.data) == O.route(tr, a.X[i:i + 1])[0]
            ok = ok and m.any()
            tot += a.yd[m].mean() if m.any() else 0
        if ok:
            expect_close('compute_exp_rf with all variables', g[i], tot / len(a.trees))
    a.classify(ctx)


def tree_run(c, ctx):
    a = Agn(c)
    base = (a.X, a.y, a.data, a.yd, c['S'])
    k = dict(min_node_size=c['nmin'], classifier=a.cls)
    t = np.zeros((a.n, 2)) if a.clf else a.t
    th = np.array(c['th'])
    thk = dict(t=th)
    tk = dict(t=t)
    if c['default']:  # a level around the target, one threshold for all; the default values with a classifier
        th[:] = th[0]
        if a.clf:
            th[:], thk, tk = 20, {}, {}
        else:
            thk, tk = dict(t=float(th[0])), dict(t=0.75)
            a.t = np.stack([a.y - 0.75, a.y + 0.75], axis=1)
    q = 5 + 90 * (abs(int(4 * c['th'][0])) % 5) / 4.0
    S0 = c['S'][0]
    steps = [call('compute_sdp_rf', *base, **tk, **k), call('compute_exp_rf', *base, **tk, **k),
             call('compute_cdf_rf', *base, **thk, **k),
             call('compute_quantile_rf', *base, t=20., quantile=q, **k),
             call('compute_quantile_diff_rf', *base, t=20., quantile=q, **k),
             call('compute_exp_shaff', a.X, a.data, a.yd, S0, min_node_size=c['nmin']),
             call('compute_sdp_clf_shaff', a.X, a.y, a.data, a.yd, S0, min_node_size=c['nmin']),
             call('compute_sdp_shaff', a.X, a.y, 0.3, a.data, a.yd, S0, min_node_size=c['nmin']),
             call('compute_quantile_shaff', a.X, a.data, a.yd, S0, min_node_size=c['nmin'], quantile=q)]
    if c['form'] == 'agn':
        steps += [call('compute_sdp_rf_v0', a.X, a.y, a.data, a.yd, S0, t=0.3, **k)]
    r = a.run(ctx, steps)
    R = a.ref
    rows = range(a.n)
    near = lambda i: (a.y[i] - a.yd) ** 2 <= 0.3  # noqa
    B = dict(order='list', stop='before')
    W = {0: [R.stat(a.X[i], c['S'][i], a.same(i)) for i in rows],
         1: [R.stat(a.X[i], c['S'][i], a.yd) for i in rows],
         2: [R.stat(a.X[i], c['S'][i], a.yd <= th[i], order='list') for i in rows],
         5: [[R.stat(a.X[i], S0, a.yd, **B)] for i in rows],
         6: [[R.stat(a.X[i], S0, a.yd == a.y[i], **B)] for i in rows],
         7: [[R.stat(a.X[i], S0, near(i), **B)] for i in rows]}
    if c['form'] == 'agn':
        W[9] = [R.stat(a.X[i], S0, a.yd == a.y[i] if a.clf else near(i), order='list') for i in rows]
    for j, w in W.items():
        expect_close(steps[j]['m'], r[j], w)
    def between(site, got, lv, w):  # percentiles are computed in single precision
        lo, hi = P.percentile(lv, w, q, slack=6e-6 * len(w))
        if not lo - 1e-4 <= float(got) <= hi + 1e-4:
            raise Violation(site, 'percentile %r of the outputs: got %r, expected %r%s'
                            % (q, float(got), lo, '' if lo == hi else ' to %r' % hi))
    for i in rows:
        between('compute_quantile_rf', r[3][i], a.yd, R.weights(a.X[i], c['S'][i], **B))
        if np.shape(r[8][i]) != (1,):
            raise Violation('compute_quantile_shaff', 'row %d: shape %s' % (i, np.shape(r[8][i])))
        between('compute_quantile_shaff', r[8][i][0], a.yd, R.weights(a.X[i], S0, **B))
        w = R.weights(a.X[i], c['S'][i], order='list')
        if w.any():
            between('compute_quantile_diff_rf', r[4][i], a.y[i] - a.yd, w)
    a.classify(ctx)


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    base = (a.X, a.y, a.data, a.yd, c['S'])
    k = dict(min_node_size=c['nmin'])
    t = None if a.clf else a.t
    r = a.run(ctx, [call('compute_sdp_rf', *base, t=t, **k), call('compute_ddp_rf', *base, t=t, **k),
                    call('compute_exp_rf', *base, t=t, **k), call('compute_cdf_rf', *base, **k)])
    R = a.ref
    for i in range(a.n):
        x, S = a.X[i], c['S'][i]
        expect_close('compute_sdp_rf', r[0][i], R.stat(x, S, a.same(i)))
        if not a.empty(i, S):
            expect_close('compute_ddp_rf', r[1][i], R.stat(x, S, 1 - a.same(i)))
        expect_close('compute_exp_rf', r[2][i], R.stat(x, S, a.yd))
        expect_close('compute_cdf_rf', r[3][i], R.stat(x, S, a.yd <= a.y[i], order='list'))
    a.classify(ctx)


@st.composite
def big_case(draw):
    return {'bulk': draw(bulk.shape(['acx', 'tree', 'agn'], d=(2, 10), trees=(1, 10), depth=(2, 6), N=(80, 400)))}


RULE = ('Forests of 1-3 trees of depth <= 3 over 1-4 integer features (node order depth- or breadth-first), given to an '
        'ACXplainer whose ranger forest consists of exactly these trees, to ACVTree and to ACVTreeAgnostic; 3-14 '
        'training rows with labels or outputs, 1-3 rows (mostly training rows, some perturbed or outside the range), a '
        'subset per row (empty and full included), minimal sizes 1, 2, 3, 5, intervals that contain their ends; and forests grown by ranger on generated data. '
        'Non-trivial: some cell holds some but not all training rows.')
FACETS = [Facet('acx', lambda: case(['acx']), acx_run, quick=1200, thorough=50000, shards=6),
          Facet('tree', lambda: case(['tree', 'agn']), tree_run, quick=1000, thorough=50000, shards=6),
          Facet('ranger', ranger_case, ranger_run, quick=300, thorough=10000, shards=4),
          Facet('big', big_case, bulk.big(lambda c, ctx: acx_run(c, ctx) if c['form'] == 'acx' else tree_run(c, ctx)),
                quick=48, thorough=1500, shards=6)]
