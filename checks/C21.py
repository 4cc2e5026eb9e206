"""C21: counterfactual rules hold what they state."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.agn import Agn, Ranger, agn_case, ranger_case
from checks.C08 import LEVELS, Memo, judge_search
from harness import Facet, Violation, close

PROP = 'C21'
BIG = 1e10
EPS = 1e-9
NODE = 5  # CR uses the default minimal node size


@st.composite
def wishes(draw, c):
    """What the counterfactuals aim at: an output (or interval) some training row has; and the levels."""
    yd, n = c['yd'], len(c['X'])
    c['nmin'] = NODE
    if c['clf']:
        other = sorted(set(yd))
        c['target'] = [draw(st.sampled_from([v for v in other if v != c['y'][i]] or other)) if gen.chance(draw, 80) else
                       draw(st.sampled_from(other)) for i in range(n)]
        c['range'] = [[0., 0.]] * n
    else:
        c['target'] = [draw(st.sampled_from(yd)) for _ in range(n)]
        c['range'] = [[v - draw(st.integers(0, 6)) / 4., v + draw(st.integers(0, 6)) / 4.] for v in c['target']]
    c['pi'], c['acc'] = draw(st.sampled_from(LEVELS)), draw(st.sampled_from(LEVELS))
    c['stop'] = draw(st.booleans())
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['effort'] = {'p_best': draw(st.sampled_from([0., 0.5, 0.85, 1.])), 'n_try': draw(st.integers(1, 6)),
                   'batch': draw(st.integers(1, 6)), 'max_iter': draw(st.integers(1, 6)),
                   'temp': draw(st.sampled_from([0.5, 1.])), 'max_iter_convergence': draw(st.integers(1, 4))}
    c['default'] = gen.chance(draw, 6)
    c['sample'] = gen.chance(draw, 5)
    return c


@st.composite
def case(draw):
    return draw(wishes(draw(agn_case(['acx'], d_hi=4, data=(8, 26), X=(1, 3), full=90, sets=False, nmin=(NODE,), trees=4,
                                         unit=True))))


@st.composite
def ranger_wishes(draw):
    c = draw(wishes(draw(ranger_case(d=(2, 5), rows=(16, 40), X=(1, 2)))))
    c['unit'] = draw(st.sampled_from(gen.UNIT))
    return c


def cr(m, *a, **k):
    return {'op': 'call', 'obj': 'r', 'm': m, 'a': list(a), 'k': k}


def at(k):
    return {'op': 'attr', 'obj': 'r', 'attr': k}


class CR(object):
    def __init__(self, c, a, ctx):
        self.c, self.a, self.ctx = c, a, ctx
        self.target = np.array(c['target'], dtype=float)
        self.range = np.array(c['range'], dtype=float).reshape(-1, 2)
        self.inside = [(a.yd == self.target[i]) if a.clf else (self.range[i, 0] <= a.yd) & (a.yd <= self.range[i, 1])
                       for i in range(a.n)]
        self.new = [{'op': 'seed', 'n': c['seed']},
                    {'op': 'new', 'id': 'r', 'kind': 'obj', 'cls': 'acv_explainers.counterfactual_rules:CR',
                     'a': [('__ref__', 'a'), a.data, a.X, a.yd, a.y, ['v%d' % j for j in range(a.d)]]}]
        self.k = dict(c['effort'])
        self.lv = {} if c['default'] else {'acc_level': c['acc'], 'pi_level': c['pi']}
        self.pi, self.acc = (.8, .8) if c['default'] else (c['pi'], c['acc'])

    def partition(self, site, S, N):
        for i in range(self.a.n):
            if sorted(int(v) for v in S[i]) + sorted(int(v) for v in N[i]) and \
                    sorted([int(v) for v in S[i]] + [int(v) for v in N[i]]) != list(range(self.a.d)):
                raise Violation(site, 'row %d: %s and %s do not partition the variables' % (i, S[i], N[i]))

    def weights(self, site, got, w, stat, want_w):
        for i in range(self.a.n):
            if not close(got[i], stat[i]):
                raise Violation(site, 'row %d: probability %s, not %s' % (i, got[i], stat[i]))
            if not close(w[i], want_w[i]):
                raise Violation(site, 'row %d: weights %s, not %s' % (i, np.asarray(w[i]).tolist(), want_w[i].tolist()))

    def candidates(self, i, w):
        """Rows with the target in the cell (or the first ten with the target), their boxes and probabilities."""
        a, ins = self.a, self.inside[i]
        idx = np.flatnonzero((np.asarray(w[i]) != 0) & ins)
        if not len(idx):
            idx = np.flatnonzero(ins)[:10]
        allv = list(range(a.d))
        g = lambda j: (a.yd == a.yd[j]).astype(float) if a.clf else ins.astype(float)  # noqa
        return [(a.ref.box(a.data[j], allv), a.ref.stat(a.data[j], allv, g(j))) for j in idx]

    def base(self, i, w):
        """(rules surely used, rules perhaps used) to grow the leaves from."""
        cs = self.candidates(i, w)
        sure = [b for b, p in cs if p >= self.pi + EPS]
        maybe = [b for b, p in cs if p >= self.pi - EPS]
        if not sure:
            last = sorted([p for _, p in cs], reverse=True)[:5][-1]
            maybe = maybe + [b for b, p in cs if p >= last - EPS]
        return sure, maybe

    def rules(self, site, i, rules, sdp, w, S_star, fixed, S_cond, base):
        """Rules of row i: on S_star grown from a base rule, elsewhere as `fixed`; probabilities and weights as stated."""
        a = self.a
        rules, sdp, w = np.asarray(rules, dtype=float), np.asarray(sdp, dtype=float), np.asarray(w, dtype=float)
        if rules.ndim != 3 or rules.shape[1:] != (a.d, 2) or sdp.shape != rules.shape[:1] or \
                w.shape != (len(rules), len(a.data)):
            raise Violation(site, 'shapes %s' % ([x.shape for x in (rules, sdp, w)],))
        if not len(rules):
            raise Violation(site, 'no counterfactual rule for row %d' % i)
        rest = [v for v in range(a.d) if v not in S_star]
        sure, maybe = base
        for j, r in enumerate(rules):
            if not np.array_equal(r[rest], fixed[rest]):
                raise Violation(site, 'row %d: the rule %s changes variables outside of %s (there: %s)'
                                % (i, r.tolist(), S_star, fixed.tolist()))
            if not any(np.all(b[S_star, 0] >= r[S_star, 0]) and np.all(b[S_star, 1] <= r[S_star, 1]) for b in maybe):
                raise Violation(site, 'row %d: the rule %s does not hold any of the rules %s of rows with the target'
                                % (i, r.tolist(), [b.tolist() for b in maybe]))
            k = dict(cond=r, cut_S=True)
            ww = a.ref.weights(a.X[i], S_cond, **k)
            if not close(sdp[j], ww.dot(self.inside[i])):
                raise Violation(site, 'row %d, rule %s: probability %s, not %s' % (i, r.tolist(), sdp[j], ww.dot(self.inside[i])))
            if not close(w[j], ww):
                raise Violation(site, 'row %d, rule %s: weights %s, not %s' % (i, r.tolist(), w[j].tolist(), ww.tolist()))
            for q in range(len(rules)):
                if q != j and np.all(rules[q][:, 0] >= r[:, 0]) and np.all(rules[q][:, 1] <= r[:, 1]):
                    raise Violation(site, 'row %d: rule %s lies in rule %s' % (i, rules[q].tolist(), r.tolist()))
        if len(rules) > 1 and not (sdp >= self.pi - EPS).all():
            raise Violation(site, 'row %d: several rules, with probabilities %s; the level is %s' % (i, sdp.tolist(), self.pi))
        return sdp

    def samples(self, site, rows, dist, S_star, rules, sdp):
        """Each sample differs from its row on S_star only and lies in (one of) the most probable rules."""
        if len(dist) != len(rows):
            raise Violation(site, '%d samples for %d rows' % (len(dist), len(rows)))
        for (i, x), z in zip(rows, dist):
            z = np.asarray(z, dtype=float).reshape(-1)
            rest = [v for v in range(self.a.d) if v not in S_star[i]]
            if z.shape != x.shape or not np.array_equal(z[rest], x[rest]):
                raise Violation(site, 'the sample %s differs from the row %s outside of %s' % (z.tolist(), x.tolist(), S_star[i]))
            s, S = np.asarray(sdp[i]), S_star[i]
            best = [np.asarray(r) for r, p in zip(rules[i], s) if p >= s.max() - EPS]
            if not any(np.all(r[S, 0] <= z[S]) and np.all(z[S] <= r[S, 1]) for r in best):
                raise Violation(site, 'the sample %s of row %s is not in the rule %s'
                                % (z.tolist(), x.tolist(), [b.tolist() for b in best]))


def arg(x, a, which):
    """The arguments of the local entry points: targets of a classifier, intervals of a regressor."""
    return {'y_target': x.target} if which else {'down': x.range[:, 0], 'up': x.range[:, 1]}


def full_one(v, size, d):
    """The searches value the set of all the variables 1."""
    return np.where(np.asarray(size) == d, 1., v)


def local(c, a, ctx):
    x = CR(c, a, ctx)
    R, n, d = a.ref, a.n, a.d
    tk = arg(x, a, a.clf)
    dk = {} if c['default'] else {'stop': c['stop'], 'pi_level': c['pi']}
    names = ['ddp_importance_local', 'ddp_index_local', 'size_local', 'S_star_local', 'S_bar_set_local', 'ddp_local', 'w_local']
    cs = ['counterfactuals_samples_local', 'counterfactuals_samples_sdp_local', 'counterfactuals_samples_w_local']
    steps = x.new + [cr('run_local_divergent_set', a.X, **tk, **dk)] + [at(k) for k in names]
    steps += [cr('run_local_counterfactual_rules', a.X, **tk, **x.lv, **x.k)] + [at(k) for k in cs]
    if c['sample']:
        steps += [cr('run_sampling_local_counterfactuals', a.X, **tk, batch=4, max_iter=4), at('dist_local'),
                  at('accuracy_local'), at('coverage_local')]
    r = a.run(ctx, steps)
    glob, star, size, S, N, ddp, w = r[3:10]
    x.partition('run_local_divergent_set', S, N)
    allv = set(range(d))
    for i in range(n):
        if [int(v) for v in S[i]] != [int(v) for v in np.asarray(star)[i][:int(size[i])]]:
            raise Violation('run_local_divergent_set', 'row %d: S_star %s of %s' % (i, S[i], np.asarray(star)[i]))
    S, N = [[int(v) for v in s] for s in S], [[int(v) for v in s] for s in N]
    x.weights('run_local_divergent_set', ddp, w, [R.stat(a.X[i], N[i], x.inside[i]) for i in range(n)],
              [R.weights(a.X[i], N[i]) for i in range(n)])
    value = Memo(lambda T: [R.stat(a.X[i], allv - set(T), x.inside[i]) for i in range(n)])
    judge_search('run_local_divergent_set', (glob, star, size, full_one(ddp, size, d)), O.groups(d, [[]]), value, d, n,
                 .8 if c['default'] else c['pi'], 1, True if c['default'] else c['stop'], ctx=ctx)
    rules, sdp, ww = r[11:14]
    several = False
    for i in range(n):
        fixed = np.full((d, 2), BIG)
        fixed[:, 0] = -BIG
        fixed[N[i]] = a.X[i][N[i]][:, None]
        p = x.rules('run_local_counterfactual_rules', i, rules[i], sdp[i], ww[i], S[i], fixed, N[i], x.base(i, w))
        several = several or len(p) > 1
    if c['sample']:
        ctx.label('sampled')
        x.samples('run_sampling_local_counterfactuals', list(enumerate(a.X)), r[15], S, rules, sdp)
        if not close(r[17], 1.):
            raise Violation('run_sampling_local_counterfactuals', 'coverage %s' % r[17])
    ctx.label('local', 'several rules' if several else 'one rule')
    ctx.nontrivial = any(0 < len(s) < d for s in S) and any((np.abs(np.asarray(q)) < BIG).any() for q in rules)


def regional(c, a, ctx):
    x = CR(c, a, ctx)
    R, n, d = a.ref, a.n, a.d
    dk = {} if c['default'] else {'stop': c['stop'], 'pi_level': c['pi']}
    tk = {'y_rules_target': x.target} if a.clf else {'down_up': x.range}
    pi_s = c['pi'] if not c['default'] else .9
    names = ['S_star_se', 'N_star_se', 'sdp_rules', 'rules']
    nd = ['ddp_importance_regional', 'ddp_index_regional', 'size_regional', 'S_star_regional', 'S_bar_set_regional',
          'ddp_regional', 'w_regional']
    cs = ['counterfactuals_samples_%sregional' % k for k in ('', 'sdp_', 'w_')]
    steps = x.new + [cr('run_sufficient_rules', a.X, a.y, t=a.t, pi_level=pi_s, **c['effort'])] + [at(k) for k in names]
    steps += [cr('run_regional_divergent_set', **tk, **dk)] + [at(k) for k in nd]
    steps += [cr('run_regional_counterfactual_rules', **x.lv, **x.k)] + [at(k) for k in cs]
    if c['sample']:
        steps += [cr('run_sampling_regional_counterfactuals', max_obs=2, batch=4, max_iter=4), at('dist_regional'),
                  cr('run_sampling_regional_counterfactuals_alltests', batch=4, max_iter=4), at('dist_regional')]
    r = a.run(ctx, steps)
    Sse, Nse, sdp_r, base = r[3:7]
    x.partition('run_sufficient_rules', Sse, Nse)
    base = np.asarray(base, dtype=float)
    for i in range(n):
        ss = [int(v) for v in Sse[i]]
        if not close(sdp_r[i], R.stat(a.X[i], ss, a.same(i))):
            raise Violation('run_sufficient_rules', 'row %d: SDP %s of %s, not %s' % (i, sdp_r[i], ss, R.stat(a.X[i], ss, a.same(i))))
        b = R.box(a.X[i], ss)
        if not (np.all(base[i][ss, 0] <= b[ss, 0]) and np.all(base[i][ss, 1] >= b[ss, 1])):
            raise Violation('run_sufficient_rules', 'row %d: rule %s does not hold its own rule %s' % (i, base[i].tolist(), b.tolist()))
    glob, star, size, S, N, ddp, w = r[8:15]
    x.partition('run_regional_divergent_set', S, N)
    S, N = [[int(v) for v in s] for s in S], [[int(v) for v in s] for s in N]
    iv = lambda i: dict(cond=base[i], cut_S=False)  # noqa
    x.weights('run_regional_divergent_set', ddp, w, [R.stat(a.X[i], S[i], x.inside[i], **iv(i)) for i in range(n)],
              [R.weights(a.X[i], S[i], **iv(i)) for i in range(n)])
    value = Memo(lambda T: [R.stat(a.X[i], T, x.inside[i], **iv(i)) for i in range(n)])
    judge_search('run_regional_divergent_set', (glob, star, size, full_one(ddp, size, d)), O.groups(d, [[]]), value, d, n,
                 .8 if c['default'] else c['pi'], 1, True if c['default'] else c['stop'], ctx=ctx)
    rules, sdp, ww = r[16:19]
    several = False
    for i in range(n):
        p = x.rules('run_regional_counterfactual_rules', i, rules[i], sdp[i], ww[i], S[i], base[i], [], x.base(i, w))
        several = several or len(p) > 1
    if c['sample']:
        ctx.label('sampled')
        rows = []
        for i in range(n):
            m = np.all((a.X >= base[i][:, 0]) & (a.X <= base[i][:, 1]), axis=1)
            rows += [(i, z) for z in a.X[m][:2]]
        x.samples('run_sampling_regional_counterfactuals', rows, r[20], S, rules, sdp)
        best = np.array([np.max(sdp[i]) * np.all((a.X > base[i][:, 0]) & (a.X <= base[i][:, 1]), axis=1) for i in range(n)])
        if len(r[22]) != len(a.X):
            raise Violation('run_sampling_regional_counterfactuals_alltests', '%d samples for %d rows' % (len(r[22]), len(a.X)))
        for q, z in enumerate(r[22]):
            err = None
            for i in np.flatnonzero(best[:, q] >= best[:, q].max() - EPS):
                try:
                    x.samples('run_sampling_regional_counterfactuals_alltests', [(i, a.X[q])], [z], S, rules, sdp)
                    err = None
                    break
                except Violation as e:
                    err = e
            if err is not None:
                raise err
    ctx.label('regional', 'several rules' if several else 'one rule')
    ctx.nontrivial = any(0 < len(s) < d for s in S) and any((np.abs(np.asarray(q)) < BIG).any() for q in rules)


def leaves(c, a, ctx):
    """The leaves the counterfactual rules are built from."""
    x = CR(c, a, ctx)
    x.pi = c['pi']  # the levels are always given here
    R, d = a.ref, a.d
    i = 0
    N = [v for v in range(d) if (c['seed'] >> v) & 1]
    S = [v for v in range(d) if v not in N]
    w = R.weights(a.X[i], N)
    f = 'get_compatible_leaf' if a.clf else 'get_compatible_leaf_reg'
    iv = [] if a.clf else [x.range[i, 0], x.range[i, 1]]
    r = a.run(ctx, [x.new[0], {'op': 'fn', 'f': 'acv_explainers.utils_cr:' + f, 'a': [
        ('__ref__', 'a'), a.X[i], x.target[i]] + iv + [S, N, w, a.data, a.yd], 'k': dict(c['effort'], pi=c['pi'], acc_level=c['acc'])}])
    suf, part, acc, bl, ba = r[1]
    part, suf, acc, bl = (np.asarray(q, dtype=float) for q in (part, suf, acc, bl))
    if part.ndim != 3 or not len(part) or part.shape[1:] != (d, 2) or acc.shape != part.shape[:1]:
        raise Violation(f, 'shapes %s, %s' % (part.shape, acc.shape))
    sure, maybe = x.base(i, [w])
    hold = lambda o, b: np.all(o[:, 0] <= b[:, 0]) and np.all(o[:, 1] >= b[:, 1])  # noqa
    for b in sure:
        if not any(hold(p, b) for p in part):
            raise Violation(f, 'the rule %s is in none of the leaves %s' % (b.tolist(), part.tolist()))
    inb = lambda b: np.all((a.data >= b[:, 0]) & (a.data <= b[:, 1]), axis=1)  # noqa
    cover = np.any([inb(b) for b in maybe], axis=0)
    for j, p in enumerate(part):
        if not any(hold(p, b) for b in maybe):
            raise Violation(f, 'the leaf %s holds none of the rules %s' % (p.tolist(), [b.tolist() for b in maybe]))
        if (inb(p) & ~cover).any():
            raise Violation(f, 'the leaf %s holds a training row of none of the rules' % p.tolist())
        if any(q != j and hold(p, part[q]) for q in range(len(part))):
            raise Violation(f, 'a leaf lies in another one: %s' % part.tolist())
        m = inb(p)
        if not close(acc[j], float(x.inside[i][m].mean())):
            raise Violation(f, 'the share of the target in %s is %s, not %s' % (p.tolist(), acc[j], x.inside[i][m].mean()))
    want = [p for p, v in zip(part, acc) if v >= c['acc']]
    if not close(ba, acc.max()) or not any(np.array_equal(p, bl) and v == acc.max() for p, v in zip(part, acc)):
        raise Violation(f, 'best leaf %s (%s), shares %s' % (bl.tolist(), ba, acc.tolist()))
    if not np.array_equal(suf, np.array(want) if want else bl[None]):
        raise Violation(f, 'leaves kept %s of %s with shares %s, level %s' % (suf.tolist(), part.tolist(), acc.tolist(), c['acc']))
    ctx.label('leaves', 'several' if len(part) > 1 else 'one')
    ctx.nontrivial = len(maybe) > 1


def on(f, R=Agn):
    return lambda c, ctx: f(c, R(c) if R is Agn else R(c, ctx), ctx)


RULE = ('Forests and training data as in C12 (8-26 rows, 1-4 variables; CR always uses the minimal size 5) and forests '
        'grown by ranger (16-40 rows), targets (class or interval) that some training row has, levels 0.4-0.999, small '
        'annealing efforts, sometimes all defaults: the divergent set, the rules, their probabilities and weights, the '
        'leaves they are built from, and, rarely, the samples drawn from them, for single rows and for regions. '
        'Non-trivial: some divergent set is neither empty nor everything and some rule is bounded (for leaves: they grow '
        'from two or more rules).')
FACETS = [Facet('local', case, on(local), quick=240, thorough=12000, shards=6),
          Facet('regional', case, on(regional), quick=200, thorough=10000, shards=6),
          Facet('leaves', case, on(leaves), quick=240, thorough=12000, shards=4),
          Facet('ranger', ranger_wishes, on(local, Ranger), quick=100, thorough=3000, shards=4),
          Facet('ranger_r', ranger_wishes, on(regional, Ranger), quick=80, thorough=3000, shards=4)]
