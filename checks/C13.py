"""C13: the sufficient rule of a row is the box of the splits that define its cell."""
import itertools

import numpy as np
from hypothesis import strategies as st

import bulk
import gen
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.common import call, close, expect_close
from harness import Facet, Violation

PROP = 'C13'
BIG = 1e10


@st.composite
def case(draw):
    c = draw(agn_case(['acx', 'acx', 'agn'], unit=True))
    q = st.integers(-8, 8).map(lambda v: v / 4.0)
    n = len(c['X'])
    c['down'] = draw(st.lists(q, min_size=n, max_size=n))
    c['up'] = [v + draw(st.integers(0, 8)) / 4.0 for v in c['down']]
    c['pick'] = draw(st.integers(0, 10 ** 6))
    return c


def within(box, x):
    return bool(np.all((x > box[:, 0]) & (x <= box[:, 1])))


def sample(c, box, S, d, pick, n=3, top=gen.G):
    """Points of the rule: any grid value between its bounds on S, anything elsewhere."""
    vals, halves = [], [float(gen.units(c, np.float64(u / 2.))) for u in range(-4, 2 * top + 5)]
    for j in range(d):
        if j in S:
            vals.append([u for u in halves if box[j, 0] < u <= box[j, 1]] or [box[j, 1]])
        else:
            vals.append(halves)
    out = []
    for i in range(n):
        r = []
        for j in range(d):
            pick, k = divmod(pick * 31 + 7 * i + j, len(vals[j]))
            r.append(vals[j][k])
        out.append(r)
    return np.array(out)


def rules_of(site, a, c, sdp, rules, want, order='set'):
    rules = np.asarray(rules)
    if rules.shape != (a.n, a.d, 2):
        raise Violation(site, 'shape of the rules %s' % (rules.shape,))
    expect_close(site, sdp, want)
    for i in range(a.n):
        x, S = a.X[i], c['S'][i]
        b = rules[i]
        free = [j for j in range(a.d) if j not in S]
        if not (np.all(b[free, 0] == -BIG) and np.all(b[free, 1] == BIG)):
            raise Violation(site, 'row %d: bounded outside its subset %s: %s' % (i, S, b.tolist()))
        if not within(b, x):
            raise Violation(site, 'row %d %s is not inside its rule %s' % (i, x.tolist(), b.tolist()))
        expect_close(site + ' (rules)', b, a.ref.box(x, S, order=order), what='row %d' % i)


def run(c, ctx):
    a = Agn(c)
    nm = c['nmin']
    down, up = np.array(c['down']), np.array(c['up'])
    R, rows = a.ref, range(a.n)
    sdp = [R.stat(a.X[i], c['S'][i], a.same(i)) for i in rows]
    full = [sum(1. for z in R.cells(a.X[i], c['S'][i]) if not z.low) / len(a.trees) for i in rows]
    if c['form'] == 'acx':
        base, k = (a.X, a.y, a.data, a.yd, c['S']), dict(min_node_size=nm, t=a.t)
        r = a.run(ctx, [call('compute_sdp_rule', *base, **k), call('compute_ddp_rule', *base, **k),
                        call('compute_cdp_rule', a.X, a.y, down, up, a.data, a.yd, c['S'], **k),
                        call('compute_sdp_rf', *base, **k)])
        if not close(r[3], r[0][0]):
            raise Violation('compute_sdp_rule', 'another SDP than compute_sdp_rf: %s, %s' % (r[0][0], r[3]))
        rules_of('compute_sdp_rule', a, c, r[0][0], r[0][1], sdp)
        rules_of('compute_ddp_rule', a, c, r[1][0], r[1][1], [f - s for f, s in zip(full, sdp)])
        rules_of('compute_cdp_rule', a, c, r[2][0], r[2][1], sdp if a.clf else
                 [R.stat(a.X[i], c['S'][i], (down[i] <= a.yd) & (a.yd <= up[i])) for i in rows])
        rules = r[0][1]
        again = lambda pts, y, t, S: call('compute_sdp_rule', pts, y, a.data, a.yd, S, min_node_size=nm, t=t)  # noqa
    else:
        t = np.zeros((a.n, 2)) if a.clf else a.t
        k = dict(min_node_size=nm, classifier=a.cls)
        base = (a.X, a.y, a.data, a.yd, c['S'])
        st_ = [call('compute_sdp_rule', *base, t=t, **k), call('compute_sdp_rule_v0', *base, t=0.3, **k)]
        r = a.run(ctx, st_)
        rules_of('compute_sdp_rule', a, c, r[0][0], r[0][1], sdp)
        near = lambda i: a.yd == a.y[i] if a.clf else (a.y[i] - a.yd) ** 2 <= 0.3  # noqa
        rules_of('compute_sdp_rule_v0', a, c, r[1][0], r[1][1],
                 [R.stat(a.X[i], c['S'][i], near(i), order='list') for i in rows], order='list')
        rules = r[0][1]
        again = lambda pts, y, t, S: call('compute_sdp_rule', pts, y, a.data, a.yd, S,  # noqa
                                          t=np.zeros((len(pts), 2)) if t is None else t, **k)
    # rows inside the rule have the SDP, and the rule, of the row it comes from
    steps, pts = [], []
    for i in rows:
        p = sample(c, rules[i], c['S'][i], a.d, c['pick'] + i, top=c['bulk']['grid'] if 'bulk' in c else gen.G)
        pts.append(p)
        steps.append(again(p, np.repeat(a.y[i], len(p)), None if a.t is None else np.repeat(a.t[i:i + 1], len(p), 0),
                           [c['S'][i]] * len(p)))
    for i, (s2, r2) in enumerate(a.run(ctx, steps)):
        if not close(s2, [sdp[i]] * len(pts[i])):
            raise Violation('compute_sdp_rule', 'rows inside the rule of row %d have other SDPs: %s, not %s; rows %s, '
                            'rule %s' % (i, np.asarray(s2).tolist(), sdp[i], pts[i].tolist(), rules[i].tolist()))
        for q in np.asarray(r2):
            if not close(q, rules[i]):
                raise Violation('compute_sdp_rule', 'a row inside the rule of row %d has another rule' % i)
    a.classify(ctx)
    ctx.nontrivial = any((np.abs(np.asarray(rules)) < BIG).any(axis=(1, 2)))


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    base, k = (a.X, a.y, a.data, a.yd, c['S']), dict(min_node_size=c['nmin'], t=a.t)
    r = a.run(ctx, [call('compute_sdp_rule', *base, **k), call('compute_ddp_rule', *base, **k)])
    rows = range(a.n)
    sdp = [a.ref.stat(a.X[i], c['S'][i], a.same(i)) for i in rows]
    full = [sum(1. for z in a.ref.cells(a.X[i], c['S'][i]) if not z.low) / len(a.trees) for i in rows]
    rules_of('compute_sdp_rule', a, c, r[0][0], r[0][1], sdp)
    rules_of('compute_ddp_rule', a, c, r[1][0], r[1][1], [f - s for f, s in zip(full, sdp)])
    steps, cand = [], np.array(list(itertools.islice(itertools.product(range(gen.G + 1), repeat=a.d), 0, 3200)), float)
    cand = gen.units(c, cand)
    sel = []
    for i in rows:
        m = [p for p in cand if within(np.asarray(r[0][1])[i], p)][:400:40]
        sel.append(m)
        if m:
            steps.append(call('compute_sdp_rule', np.array(m), np.repeat(a.y[i], len(m)), a.data, a.yd,
                              [c['S'][i]] * len(m), min_node_size=c['nmin'],
                              t=None if a.t is None else np.repeat(a.t[i:i + 1], len(m), 0)))
    out = iter(a.run(ctx, steps))
    for i in rows:
        if sel[i] and not close(next(out)[0], [sdp[i]] * len(sel[i])):
            raise Violation('compute_sdp_rule', 'rows inside the rule of row %d have other SDPs' % i)
    a.classify(ctx)
    ctx.nontrivial = any((np.abs(np.asarray(r[0][1])) < BIG).any(axis=(1, 2)))


@st.composite
def ranger_units(draw):
    return dict(draw(ranger_case()), unit=draw(st.sampled_from(gen.UNIT)))


@st.composite
def big_case(draw):
    return {'bulk': draw(bulk.shape(['acx', 'acx', 'agn'], d=(2, 10), trees=(1, 10), depth=(2, 6), N=(80, 400)))}


RULE = ('The cases of C12 for ACXplainer and ACVTreeAgnostic (rules with SDP, anti-SDP, interval probability, and the v0 '
        'variant), plus three points of every returned rule (values on and between the bounds on S, anything elsewhere) '
        'explained again with the same decision; and forests grown by ranger. Non-trivial: some rule is bounded.')
FACETS = [Facet('rules', case, run, quick=1200, thorough=50000, shards=6),
          Facet('ranger', ranger_units, ranger_run, quick=250, thorough=10000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=48, thorough=1500, shards=6)]
