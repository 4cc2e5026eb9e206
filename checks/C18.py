"""C18: rules extended from a row's rule contain it and stay sufficient."""
import itertools

import numpy as np
from hypothesis import strategies as st

import bulk
import gen
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.common import arr, call, close, expect_close
from harness import Facet, Violation

PROP = 'C18'
BIG = 1e10
EPS = 1e-9


@st.composite
def extras(draw, c):
    c['pi'] = draw(st.sampled_from([0.3, 0.5, 0.7, 0.9, 0.95]))
    c['verbose'] = draw(st.booleans())
    c['default'] = gen.chance(draw, 20)
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['p_best'] = draw(st.sampled_from([0., 0.5, 0.85, 1.]))
    c['batch'] = draw(st.integers(1, 6))
    c['iter'] = draw(st.integers(1, 6))
    return c


@st.composite
def case(draw):
    return draw(extras(draw(agn_case(['acx', 'agn'], X=(1, 2), nmin=(1, 1, 2, 3), full=85, data=(4, 12), inside=90,
                                          unit=True))))


def contains(site, i, rule, base):
    if rule.shape != base.shape:
        raise Violation(site, 'rule %d has shape %s' % (i, rule.shape))
    if (rule[:, 0] > base[:, 0] + EPS).any() or (rule[:, 1] < base[:, 1] - EPS).any():
        raise Violation(site, 'the rule returned for row %d, %s, does not contain its own rule %s'
                        % (i, rule.tolist(), base.tolist()))


def expected(a, c, order, masked, same):
    """The reference: SDP, rule and weights of each row, SDPs and rules of the training rows."""
    R, m = a.ref, len(a.data)
    out = []
    for i in range(a.n):
        S = c['S'][i]
        w = R.weights(a.X[i], S, order=order)
        s, b = np.zeros(m), np.full((m, a.d, 2), BIG)
        b[:, :, 0] = -BIG
        for j in range(m):
            if w[j] != 0 or not masked:
                s[j] = R.stat(a.data[j], S, same(i), order=order)
                b[j] = R.box(a.data[j], S, order=order)
        out.append((w.dot(same(i)), R.box(a.X[i], S, order=order), w, s, b))
    return out


def grid(a, c, i, rules):
    """Points between and on the ends of the boxes met, over the variables of S (the others as in the row)."""
    S, u = list(c['S'][i]), gen.UNITS[c.get('unit', 0)][0]
    axes = []
    for v in S:
        e = sorted(set(float(x) for b in rules for x in b[v] if abs(x) < BIG))
        p = sorted(set(e + [x + .25 * u for x in e] + ([e[0] - u] if e else [0.])))
        axes.append(p)
    pts = []
    for co in itertools.islice(itertools.product(*axes), 0, 400):
        x = a.X[i].copy()
        x[S] = co
        pts.append(x)
    return pts


def in_box(x, b):
    return bool(((x > b[:, 0]) & (x <= b[:, 1])).all())


def in_closed(x, b):
    return bool(((x >= b[:, 0]) & (x <= b[:, 1])).all())


def extended(site, a, c, rules, exp, order, same):
    """Every point inside a rule extended by joining boxes is in the row's own rule or has SDP >= pi given S."""
    for i in range(a.n):
        base, sd, bx = exp[i][1], exp[i][3], exp[i][4]
        contains(site, i, rules[i], base)
        if close(rules[i], base):
            continue
        for x in grid(a, c, i, [base, rules[i]] + list(bx[:6])):
            if in_box(x, rules[i]) and not in_box(x, base):
                s = a.ref.stat(x, c['S'][i], same(i), order=order)
                if s < c['pi'] - EPS:
                    raise Violation(site, 'the rule of row %d, extended from %s to %s, admits %s with SDP %r < %r'
                                    % (i, base.tolist(), rules[i].tolist(), x.tolist(), s, c['pi']))
    return any(not close(rules[i], exp[i][1]) for i in range(a.n))


def annealed(site, a, c, rules, exp):
    """The enlarged rule is the row's own, or contains it and no training row (bounds included) below pi."""
    for i in range(a.n):
        base, sd = exp[i][1], exp[i][3]
        contains(site, i, rules[i], base)
        if close(rules[i], base):
            continue
        for j in range(len(a.data)):
            if sd[j] < c['pi'] - EPS and in_closed(a.data[j], rules[i]):
                raise Violation(site, 'the rule of row %d, enlarged from %s to %s, admits training row %d with SDP %r'
                                % (i, base.tolist(), rules[i].tolist(), j, sd[j]))
        bounds = [set(np.concatenate([exp[i][4][sd >= c['pi'] - EPS, v, e], [base[v, e]]])) for v in range(a.d) for e in (0, 1)]
        for v in range(a.d):
            for e in (0, 1):
                if rules[i][v, e] not in bounds[2 * v + e]:
                    raise Violation(site, 'the rule of row %d has bound %r on variable %d, which no joined rule has'
                                    % (i, rules[i][v, e], v))
    return any(not close(rules[i], exp[i][1]) for i in range(a.n))


def parts(site, a, r, exp):
    for i in range(a.n):
        expect_close(site, r[0][i], exp[i][0], what='the SDP of row %d' % i)
        expect_close(site, r[2][i], exp[i][3], what='the SDPs of the training rows for row %d' % i)
        expect_close(site, r[3][i], exp[i][4], what='the rules of the training rows for row %d' % i)
        if len(r) > 4:
            expect_close(site, r[4][i], exp[i][2], what='the weights of row %d' % i)
    rules = np.asarray(r[1])
    if rules.shape != (a.n, a.d, 2):
        raise Violation(site, 'rules of shape %s' % (rules.shape,))
    return rules


def acx(a, c, ctx):
    t = None if a.clf or c['default'] else a.t
    tt = a.t if a.clf or t is not None or c['form'] == 'ranger' else a.default_t()
    if c['form'] == 'ranger':
        t = a.t
    same = lambda i: a.same(i, tt)  # noqa
    base = (a.X, a.y, a.data, a.yd, c['S'])
    k = dict(min_node_size=c['nmin'], t=t, pi_level=c['pi'], verbose=c['verbose'])
    seed = {'op': 'seed', 'n': c['seed']}
    r = a.run(ctx, [call('compute_sdp_maxrules', *base, algo2=True, **k), seed,
                    call('compute_sdp_maxrules', *base, p_best=c['p_best'], n_try=5, batch=c['batch'],
                         max_iter=c['iter'], max_iter_convergence=3, **k)])
    exp = expected(a, c, 'set', True, same)
    e = extended('compute_sdp_maxrules', a, c, parts('compute_sdp_maxrules', a, r[0], exp), exp, 'set', same)
    z = annealed('compute_sdp_maxrules', a, c, parts('compute_sdp_maxrules', a, r[2], exp), exp)
    return e, z


def run(c, ctx):
    a = Agn(c)
    if c['form'] == 'acx':
        e, z = acx(a, c, ctx)
    else:
        base = (a.X, a.y, a.data, a.yd, c['S'])
        k = dict(min_node_size=c['nmin'], classifier=a.cls, pi=c['pi'])
        near = lambda i: a.yd == a.y[i] if a.clf else (a.y[i] - a.yd) ** 2 <= 0.3  # noqa
        r = a.run(ctx, [call('compute_sdp_maxrules', *base, t=np.zeros((a.n, 2)) if a.clf else a.t, **k),
                        call('compute_sdp_maxrules_opti', *base, t=0.3, **k),
                        call('compute_sdp_maxrules_v0', *base, t=0.3, **k)])
        e, z = False, False
        for site, res, order, masked, same in (('compute_sdp_maxrules', r[0], 'set', True, a.same),
                                               ('compute_sdp_maxrules_opti', r[1], 'list', True, near),
                                               ('compute_sdp_maxrules_v0', r[2], 'list', False, near)):
            exp = expected(a, c, order, masked, same)
            e = extended(site, a, c, parts(site, a, res, exp), exp, order, same) or e
    ctx.label('form:' + c['form'], *(['a rule joined with others'] if e else []) + (['a rule enlarged'] if z else []))
    ctx.nontrivial = e or z


@st.composite
def ranger_extras(draw):
    return draw(extras(dict(draw(ranger_case(X=(1, 2))), unit=draw(st.sampled_from(gen.UNIT)))))


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    e, z = acx(a, c, ctx)
    ctx.label(*(['a rule joined with others'] if e else []) + (['a rule enlarged'] if z else []))
    ctx.nontrivial = e or z


@st.composite
def big_case(draw):
    s = draw(bulk.shape(['acx', 'acx', 'agn'], d=(2, 6), trees=(1, 5), depth=(2, 4), N=(30, 120), n=(1, 2)))
    return draw(extras({'bulk': s}))


@st.composite
def rect_case(draw):
    """A rule and boxes, many of them adjacent to it, in a grid of half units."""
    d = draw(st.integers(1, 4))
    S = draw(gen.subset(d, 1))
    def box(p_inf):
        b = []
        for v in range(d):
            if v not in S:
                b.append([-BIG, BIG])
                continue
            lo, w = draw(st.integers(0, 5)), draw(st.integers(1, 3))
            b.append([-BIG if gen.chance(draw, p_inf) else lo / 2., BIG if gen.chance(draw, p_inf) else (lo + w) / 2.])
        return b
    base = box(10)
    out = []
    for _ in range(draw(st.integers(0, 6))):
        b = box(15)
        if gen.chance(draw, 75):  # next to the rule, or to an earlier box, along one variable
            o = draw(st.sampled_from([base] + out))
            b = [list(x) for x in o]
            for v in S:
                k = draw(st.integers(0, 9))
                if k < 3 and o[v][1] < BIG:
                    b[v] = [o[v][1], o[v][1] + draw(st.integers(1, 3)) / 2.]
                elif k < 5 and o[v][0] > -BIG:
                    b[v] = [o[v][0] - draw(st.integers(1, 3)) / 2., o[v][0]]
                elif k < 7:
                    b[v] = [b[v][0] - draw(st.integers(-1, 2)) / 2., b[v][1] + draw(st.integers(-1, 2)) / 2.]
                    if b[v][0] >= b[v][1]:
                        b[v] = list(o[v])
        out.append(b)
    ok = draw(st.lists(st.integers(0, 9), min_size=len(out), max_size=len(out)))
    pts = draw(gen.rows(1, 10, d, -1, 8))
    return {'d': d, 'S': S, 'base': base, 'boxes': out, 'sdp': [v / 9. for v in ok], 'pi': 0.5,
            'pts': [[x / 2. for x in p] for p in pts], 'bad': draw(st.lists(st.booleans(), min_size=len(pts), max_size=len(pts))),
            'seed': draw(st.integers(0, 10 ** 6)), 'p_best': draw(st.sampled_from([0., 0.6, 1.])),
            'unit': draw(st.sampled_from(gen.UNIT))}


def rect_run(c, ctx):
    d, S, m = c['d'], c['S'], len(c['boxes'])
    u = gen.UNITS[c.get('unit', 0)][0]
    base = gen.units(c, arr(c['base']))
    boxes = gen.units(c, np.array(c['boxes'], dtype=float).reshape(m, d, 2))
    sdp = np.array(c['sdp'], dtype=float)
    site = 'extend_partition'
    r = ctx.values([{'op': 'new', 'id': 'h', 'kind': 'extend', 'a': [base[None], boxes[None], sdp[None], c['pi'], [list(S)]]},
                    {'op': 'attr', 'obj': 'h', 'attr': 'rules'}])[1]
    rule = np.asarray(r)[0]
    contains(site, 0, rule, base)
    good = [b for b, s in zip(boxes, sdp) if s >= c['pi']]
    ends = [sorted(set(float(x) for b in [base, rule] + good for x in b[v] if abs(x) < BIG)) for v in S]
    axes = [sorted(set(e + [x + .25 * u for x in e] + ([e[0] - u] if e else [0.]))) for e in ends]
    for co in itertools.islice(itertools.product(*axes), 0, 6000):
        x = np.zeros(d)
        x[S] = co
        if in_box(x, rule) and not any(in_box(x, b) for b in [base] + good):
            raise Violation(site, 'rule %s, extended to %s, admits %s, which neither it nor a sufficient box contains'
                            % (base.tolist(), rule.tolist(), x.tolist()))
    grown = not close(rule, base)
    # the randomized enlargement, training rows and their quality given directly (a box each)
    pts = gen.units(c, arr(c['pts'], d))
    n = len(pts)
    bx = np.array([boxes[i % m] if m else base for i in range(n)], dtype=float)
    sd = np.where(np.array(c['bad']), 0., 1.)
    kw = dict(pi_level=0.5, p_best=c['p_best'], n_try=5, batch=4, max_iter=5, max_iter_convergence=3)
    out = ctx.values([{'op': 'seed', 'n': c['seed']},
                      {'op': 'anneal', 'a': [base[None], bx[None], sd[None], pts], 'k': kw}])[1]
    new, ev = np.asarray(out[0], dtype=float), np.asarray(out[1], dtype=float)
    if new.shape != (1, d, 2) or len(ev) != 1:
        raise Violation('rules_by_annealing', 'rules of shape %s' % (new.shape,))
    contains('rules_by_annealing', 0, new[0], base)
    if not close(new[0], base):
        for j in range(n):
            if c['bad'][j] and in_closed(pts[j], new[0]):
                raise Violation('rules_by_annealing', '%s, enlarged to %s, admits %s' % (base.tolist(), new[0].tolist(), pts[j].tolist()))
        ctx.label('enlarged')
        grown = True
    ctx.nontrivial = grown


RULE = ('The cases of C12 for ACXplainer (both algorithms, verbose or not, random annealing parameters) and '
        'ACVTreeAgnostic (three variants), and forests grown by ranger; rules joined with others are sampled on a grid '
        'of points on and between all bounds met; and extend_partition / rules_by_annealing on generated boxes, many '
        'adjacent to the rule or touching it at a corner. Non-trivial: some rule grew.')
FACETS = [Facet('forest', case, run, quick=500, thorough=30000, shards=6),
          Facet('ranger', ranger_extras, ranger_run, quick=100, thorough=6000, shards=4),
          Facet('boxes', rect_case, rect_run, quick=800, thorough=40000, shards=4),
          Facet('big', big_case, bulk.big(run), quick=24, thorough=600, shards=6)]
