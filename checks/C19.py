"""C19: global rules answer with the best admissible rule."""
import numpy as np
from hypothesis import strategies as st

import gen
from checks.agn import Ranger, ranger_case
from checks.common import arr, call
from harness import Facet, Violation, close

PROP = 'C19'
BIG = 1e10


@st.composite
def rect(draw, d, S, row):
    b = [[-BIG, BIG] for _ in range(d)]
    for v in S:
        k = draw(st.integers(0, 9))
        lo, hi = sorted(draw(st.lists(st.integers(-2, 2 * gen.G + 2), min_size=2, max_size=2)))
        if k < 6:  # around the row, its bounds included
            lo, hi = min(lo, 2 * row[v]), max(hi, 2 * row[v])
        b[v] = [lo / 2. if k != 1 else -BIG, hi / 2. if k != 2 else BIG]
    return b


@st.composite
def case(draw):
    clf = draw(st.booleans())
    d = draw(st.integers(1, 4))
    D = draw(gen.rows(1, 14, d))
    # quarters of small integers: sums are exact
    out = st.integers(0, 1) if clf else st.integers(-8, 8).map(lambda v: v / 4.0)
    y = draw(st.lists(out, min_size=len(D), max_size=len(D)))
    rules, S = [], []
    finite = gen.chance(draw, 25)
    for _ in range(draw(st.integers(1, 7))):
        if rules and gen.chance(draw, 25):
            j = draw(st.integers(0, len(rules) - 1))
            rules.append([list(b) for b in rules[j]])
            S.append(list(S[j]))
            continue
        s = draw(gen.some(d, 100))
        r = draw(rect(d, s, D[draw(st.integers(0, len(D) - 1))]))
        if finite:  # bounds on other variables, which do not count
            for v in range(d):
                if v not in s:
                    r[v] = [0.5, 1.5 + len(rules) / 64.]
        if any(r == o and sorted(s) != sorted(q) for o, q in zip(rules, S)):
            if finite:
                continue
            # unbounded in each of the variables they do not share: the same condition
        rules.append(r)
        S.append(s)
    X = []
    for _ in range(draw(st.integers(1, 4))):
        X.append(list(draw(st.sampled_from(D))) if gen.chance(draw, 60) else
                 draw(st.lists(st.integers(-1, gen.G + 1), min_size=d, max_size=d)))
    n = len(D)
    return {'clf': clf, 'd': d, 'data': D, 'y': y, 'rules': rules, 'S': S, 'X': X,
            'cov': [draw(st.integers(0, n)), n] if gen.chance(draw, 70) else [0, 1],
            'q': draw(st.sampled_from(['default', 'any', 'some'])), 'qi': draw(st.integers(0, 6)),
            'again': draw(st.booleans()), 'unit': draw(st.sampled_from(gen.UNIT))}


def contains(r, S, Z):
    m = np.ones(len(Z), dtype=bool)
    for v in S:
        m &= (Z[:, v] >= r[v, 0]) & (Z[:, v] <= r[v, 1])
    return m


def judge_fit(clf, rules, S, D, y, at):
    """The rules kept, with the quality measured on the training rows."""
    kept = np.asarray(at['rules'], dtype=float)
    ks = [[int(v) for v in s] for s in at['rules_s_star']]
    n = len(D)
    uniq = {r.tobytes() for r in rules}
    if len({r.tobytes() for r in kept}) != len(kept) or {r.tobytes() for r in kept} != uniq or len(ks) != len(kept):
        raise Violation('fit_global_rules', 'rules kept %s of %s' % (kept.tolist(), rules.tolist()))
    m = len(kept)
    names = ['rules_coverage', 'rules_acc', 'rules_var', 'rules_output'] + (['rules_output_proba'] if clf else [])
    for k in names:
        if len(at[k]) != m:
            raise Violation('fit_global_rules', '%s has %d entries for %d rules' % (k, len(at[k]), m))
    ref = []
    for j in range(m):
        src = [i for i in range(len(rules)) if rules[i].tobytes() == kept[j].tobytes()]
        if not any(sorted(S[i]) == sorted(ks[j]) for i in src):
            raise Violation('fit_global_rules', 'rule %s: variables %s, given with %s'
                            % (kept[j].tolist(), ks[j], [S[i] for i in src]))
        w = contains(kept[j], ks[j], D)
        c = int(w.sum())
        r = {'cov': c / float(n), 'n': c}
        if c:
            mean = float(y[w].mean())
            r['out'] = [0, 1] if clf and mean == .5 else [int(mean > .5)] if clf else [mean]
            r['acc'] = max(mean, 1 - mean) if clf else float(((y[w] - mean) ** 2).mean())
            if clf:
                r['acc'] = max(int(y[w].sum()), c - int(y[w].sum())) / float(c)
            r['proba'] = mean
            for k, v in (('rules_acc', r['acc']), ('rules_var', float(y[w].var()))) + \
                    ((('rules_output_proba', mean),) if clf else ()):
                if not close(at[k][j], v):
                    raise Violation('fit_global_rules', '%s of %s is %s, not %s' % (k, kept[j].tolist(), at[k][j], v))
            if not any(close(at['rules_output'][j], o) for o in r['out']):
                raise Violation('fit_global_rules', 'output of %s is %s, not %s' % (kept[j].tolist(), at['rules_output'][j], r['out']))
        if not close(at['rules_coverage'][j], r['cov']):
            raise Violation('fit_global_rules', 'coverage of %s is %s, not %s' % (kept[j].tolist(), at['rules_coverage'][j], r['cov']))
        ref.append(r)
    return kept, ks, ref


def judge_predict(site, clf, out, X, kept, ks, ref, at, cov, bound, key):
    if len(out) != 3 or any(len(o) != len(X) for o in out):
        raise Violation(site, 'answers of length %s for %d rows' % ([len(o) for o in out], len(X)))
    hits = []
    for i in range(len(X)):
        # a rule without training rows has no output and no quality
        A = [j for j in range(len(kept)) if contains(kept[j], ks[j], X[i:i + 1])[0] and ref[j]['n'] and ref[j]['cov'] >= cov]
        o, r, s = out[0][i], out[1][i], out[2][i]
        none = [v is None for v in (o, r, s)]
        txt = 'row %s (coverage %s, quality %s): ' % (X[i].tolist(), cov, bound)
        if any(none) and not all(none):
            raise Violation(site, txt + 'output %s with rule %s' % (o, r))
        best = (max if clf else min)([ref[j]['acc'] for j in A]) if A else None
        e = 0 if clf else 1e-9
        sure = A and (best >= bound if clf else best <= bound - e)
        maybe = A and (best >= bound if clf else best <= bound + e)
        hits.append(len(A))
        if none[0]:
            if sure:
                raise Violation(site, txt + 'no answer, but rule %s has quality %s' % (
                    [kept[j].tolist() for j in A if ref[j]['acc'] == best][0], best))
            continue
        if not maybe:
            raise Violation(site, txt + 'answered %s by %s, where %s' % (
                o, np.asarray(r).tolist(), 'no rule is admissible' if not A else 'the best quality is %s' % best))
        ok = [j for j in A if kept[j].tobytes() == np.asarray(r, dtype=float).tobytes()
              and abs(ref[j]['acc'] - best) <= 1e-9 and sorted(int(v) for v in s) == sorted(ks[j])
              and close(o, at[key][j])]
        if not ok:
            raise Violation(site, txt + 'answered %s by %s on %s; admissible: %s' % (
                o, np.asarray(r).tolist(), s, [(kept[j].tolist(), ks[j], ref[j]) for j in A]))
    return hits


NAMES = ['rules', 'rules_s_star', 'rules_coverage', 'rules_acc', 'rules_var', 'rules_output', 'rules_output_proba']


def quality(c, y):
    """The bound asked for: the default, one everything meets, or one near the qualities."""
    if c['q'] == 'default':
        return {}, 0.8 if c['clf'] else 1000
    b = (0. if c['q'] == 'any' else [0.5, 2 / 3., 0.75, 0.6, 1., 1.25, 0.8][c['qi']]) if c['clf'] else \
        (1e6 if c['q'] == 'any' else [0., 0.0625, 0.25, 0.5, 1., 2., 4.][c['qi']])
    return ({'min_acc': b} if c['clf'] else {'min_reg': b}), b


def run(c, ctx):
    clf, d, m = c['clf'], c['d'], len(c['rules'])
    D, X, y = gen.units(c, arr(c['data'], d)), gen.units(c, arr(c['X'], d)), np.array(c['y'], dtype=float)
    rules = gen.units(c, np.array(c['rules'], dtype=float).reshape(m, d, 2))
    cov = c['cov'][0] / float(c['cov'][1])
    kq, bound = quality(c, y)
    kw = dict(kq, coverage=cov)
    new = {'op': 'new', 'id': 'a', 'kind': 'acx', 'k': {'classifier': clf}}
    pre = []
    if c['again']:  # other rules fitted before leave no trace
        pre = [{'op': 'call', 'obj': 'a', 'm': 'fit_global_rules', 'a': [D[::-1] + 1, y, rules[::-1] + 1, c['S'][::-1]], 'k': {}},
               {'op': 'call', 'obj': 'a', 'm': 'predict_global_rules', 'a': [X], 'k': {}}]
    else:
        r = ctx.prog([new, call('predict_global_rules', X), call('predict_proba_global_rules', X)])
        for k in (1, 2):
            if r[k].get('exc', ('',))[0] != 'NotFittedError':
                raise Violation('predict_global_rules', 'before fitting: %s' % str(r[k])[:200])
    steps = [new] + pre + [call('fit_global_rules', D, y, rules, c['S'])]
    steps += [{'op': 'attr', 'obj': 'a', 'attr': k} for k in NAMES]
    steps += [call('predict_global_rules', X, **kw)]
    r = ctx.prog(steps + [call('predict_proba_global_rules', X, **(kw if clf else {}))])
    for k, x in enumerate(r[:-1]):
        if 'exc' in x and not (pre and k == 2):
            raise Violation(steps[k].get('m', steps[k]['op']), 'raised %s: %s\n%s' % x['exc'])
    o = len(steps) - 1 - len(NAMES)
    at = dict(zip(NAMES, [r[o + k]['ok'] for k in range(len(NAMES))]))
    kept, ks, ref = judge_fit(clf, rules, c['S'], D, y, at)
    hits = judge_predict('predict_global_rules', clf, r[-2]['ok'], X, kept, ks, ref, at, cov, bound, 'rules_output')
    if clf:
        if 'exc' in r[-1]:
            raise Violation('predict_proba_global_rules', 'raised %s: %s\n%s' % r[-1]['exc'])
        judge_predict('predict_proba_global_rules', clf, r[-1]['ok'], X, kept, ks, ref, at, cov, bound, 'rules_output_proba')
    elif r[-1].get('exc', ('',))[0] != 'ValueError':
        raise Violation('predict_proba_global_rules', 'for a regressor: %s' % str(r[-1])[:200])
    ctx.label('clf' if clf else 'reg', 'some rule without rows' if any(not x['n'] for x in ref) else 'all rules with rows')
    ctx.nontrivial = any(h > 1 for h in hits)


@st.composite
def ranger_rules(draw):
    c = draw(ranger_case(X=(3, 6)))
    n = len(c['data'])
    c['unit'] = draw(st.sampled_from(gen.UNIT))
    c['new'] = draw(gen.rows(2, 4, c['d']))
    c['cov'] = [draw(st.integers(0, n // 2)), n]
    c['q'], c['qi'] = draw(st.sampled_from(['default', 'any', 'some'])), draw(st.integers(0, 6))
    return c


def ranger_run(c, ctx):
    a = Ranger(c, ctx)
    t = None if a.clf else a.t
    r = a.run(ctx, [call('compute_sdp_rule', a.X, a.y, a.data, a.yd, c['S'], min_node_size=c['nmin'], t=t)])[0]
    rules = np.asarray(r[1], dtype=float)
    cov = c['cov'][0] / float(c['cov'][1])
    kq, bound = quality(c, a.yd)
    X = np.concatenate([a.X, gen.units(c, arr(c['new'], c['d']))])
    steps = [call('fit_global_rules', a.data, a.yd, rules, c['S'])] + [{'op': 'attr', 'obj': 'a', 'attr': k} for k in NAMES]
    steps += [call('predict_global_rules', X, **dict(kq, coverage=cov))]
    if a.clf:
        steps += [call('predict_proba_global_rules', X, **dict(kq, coverage=cov))]
    r = a.run(ctx, steps)
    at = dict(zip(NAMES, r[1:]))
    kept, ks, ref = judge_fit(a.clf, rules, c['S'], a.data, a.yd, at)
    p = 1 + len(NAMES)
    hits = judge_predict('predict_global_rules', a.clf, r[p], X, kept, ks, ref, at, cov, bound, 'rules_output')
    if a.clf:
        judge_predict('predict_proba_global_rules', a.clf, r[p + 1], X, kept, ks, ref, at, cov, bound, 'rules_output_proba')
    ctx.nontrivial = any(h > 1 for h in hits)


RULE = ('Rules generated around the training rows (some repeated, some without training rows, some with bounds on '
        'variables that do not count), fitted on generated rows and outputs (0/1, or quarters), possibly after other '
        'rules, and asked for generated rows with coverage and quality bounds on and between the values met; and the '
        'sufficient rules of forests grown by ranger. Non-trivial: two or more rules are admissible for some row.')
FACETS = [Facet('rules', case, run, quick=3000, thorough=100000, shards=6),
          Facet('ranger', ranger_rules, ranger_run, quick=100, thorough=6000, shards=4)]
