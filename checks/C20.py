"""C20: explanations are pure functions of their arguments."""
import numpy as np
from hypothesis import strategies as st

import bulk
import gen
import oracle as O
from checks.agn import Agn, agn_case, ranger_case
from checks.C08 import LEVELS, space_players
from checks.C14 import box
from checks.common import Built, S_arr, arr, call, forest_case
from harness import Facet, Skip, Violation

PROP = 'C20'


# ---- the shape of the answers: what belongs to a row, and what is over all rows
def clean(x):
    return x.tolist() if isinstance(x, np.ndarray) else x


def row_of(mode, r, p):
    if mode == 'rows':
        return clean(np.asarray(r)[p]) if not isinstance(r, list) else clean(r[p])
    if mode == 'tup':
        return [clean(np.asarray(x)[p]) if not isinstance(x, list) else clean(x[p]) for x in r]
    if mode == 'imp':
        return [sorted(int(v) for v in r[1][p] if v >= 0), int(r[2][p]), float(r[3][p])]
    if mode == 'expl':
        o = sorted((sorted(int(v) for v in S), float(v)) for S, v in zip(r[0][p], r[1][p]))
        return [list(x) for x in o]
    raise ValueError(mode)


def agree(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return bool(np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


class M(object):
    """A method: its arguments for the rows idx, and the shape of its answer."""

    def __init__(self, name, args, mode='rows', rng=False, obj='a'):
        self.name, self.args, self.mode, self.rng, self.obj = name, args, mode, rng, obj

    def step(self, idx, obj):
        a, k = self.args(list(idx))
        return {'op': 'call', 'obj': obj, 'm': self.name, 'a': list(a), 'k': k, 'wreck': True}


def drop_C(k):
    """An empty list of groups is given by leaving it out."""
    return {x: v for x, v in k.items() if x != 'C' or v != [[]]}


def tree_methods(b, c):
    X, D, n, d = b.X, b.data, b.F.n, c['d']
    S, Sl = S_arr(c['S']), list(c['S'])
    C = {'C': c['C']}
    pl, sp = O.groups(d, c['C']), space_players(c['space'], c['C'])
    out = []
    add = lambda *a, **k: out.append(M(*a, **k))  # noqa
    for m in ('shap_values', 'shap_values_nopa', 'shap_values_cache', 'shap_values_cache_nopa', 'py_shap_values',
              'py_shap_valuesv2', 'shap_values_normalized', 'shap_values_normalized_cache',
              'shap_values_normalized_cache_nopa'):
        add(m, lambda i: ((X[i],), drop_C(C)))
    for m in ('shap_values_acv', 'shap_values_acv_nopa'):
        add(m, lambda i: ((X[i], S_arr(c['A']), S_arr(c['N'])), drop_C(C)))
    add('py_shap_values_acv', lambda i: ((X[i], list(c['A']), list(c['N'])), drop_C(C)))
    Ss = np.array([s + [-1] * (d - len(s)) for s, _ in c['rows']], dtype=np.int64)
    Ns = np.array([[-1] * len(s) + r for s, r in c['rows']], dtype=np.int64)
    size = np.array([len(s) for s, _ in c['rows']], dtype=np.int64)
    for m in ('shap_values_acv_adap', 'shap_values_acv_adap_nopa'):
        add(m, lambda i: ((X[i], Ss[i], Ns[i], size[i]), drop_C(C)))
    for m in ('compute_exp', 'compute_exp_nopa', 'compute_exp_normalized', 'compute_exp_normalized_nopa',
              'compute_exp_cat', 'compute_exp_cat_nopa'):
        add(m, lambda i: ((X[i], S, D), {}))
    for m in ('py_compute_exp', 'py_compute_exp_cat'):
        add(m, lambda i: ((X[i], Sl, D), {}))
    k = dict(C=c['C'], pi_level=c['pi'], minimal=min(c['min'], len(pl)))
    if b.clf:
        for m in ('compute_sdp_clf', 'compute_sdp_clf_nopa', 'compute_sdp_clf_cat', 'compute_sdp_clf_cat_nopa'):
            add(m, lambda i: ((X[i], S, D), {}))
        for m in ('py_compute_sdp_clf', 'py_compute_sdp_clf_cat'):
            add(m, lambda i: ((X[i], Sl, D), {}))
        for m in ('importance_sdp_clf', 'importance_sdp_clf_greedy', 'importance_sdp_clf_ptrees'):
            add(m, lambda i: ((X[i], D), drop_C(dict(k, stop=c['stop']))), 'imp')
        add('importance_sdp_clf_nopa', lambda i: ((X[i], D), drop_C(k)), 'imp')
        add('importance_sdp_clf_search', lambda i: ((X[i], D), drop_C(dict(k, minimal=min(c['min'], len(sp)), stop=c['stop'],
                                                                          search_space=list(c['space'])))), 'imp')
        for m in ('swing_sv_clf', 'swing_sv_clf_nopa', 'swing_sv_clf_slow'):
            add(m, lambda i: ((X[i], D), drop_C(dict(C, thresholds=c['pi']))), 'tup')
        for m in ('demo_swing_sv_clf', 'demo_swing_sv_clf_cat'):
            add(m, lambda i: ((X[i], D, c['C']), {}), 'tup')
        add('py_swing_sv_clf', lambda i: ((X[i], D, c['pi'], c['C']), {}), 'tup')
        add('compute_msdp_clf', lambda i: ((X[i], S, D), {}))
        add('importance_msdp_clf', lambda i: ((X[i], D), drop_C(dict(k, stop=c['stop']))), 'imp')
        add('importance_msdp_clf_search', lambda i: ((X[i], D), drop_C(dict(k, stop=c['stop']))), 'imp')
    elif c['form'] != 'dict':
        for m in ('compute_sdp_reg', 'compute_sdp_reg_nopa', 'compute_sdp_reg_cat', 'compute_sdp_reg_cat_nopa'):
            add(m, lambda i: ((X[i], c['t'], S, D), {}))
        for m in ('py_compute_sdp_reg', 'py_compute_sdp_reg_cat'):
            add(m, lambda i: ((X[i], c['t'], Sl, D), {}))
        for m in ('importance_sdp_reg', 'importance_sdp_reg_cat'):
            add(m, lambda i: ((X[i], c['t'], D), drop_C(dict(k, stop=c['stop']))), 'imp')
        for m in ('importance_sdp_reg_nopa', 'importance_sdp_reg_cat_nopa'):
            add(m, lambda i: ((X[i], c['t'], D), drop_C(k)), 'imp')
        if c['form'] != 'dict1':
            add('compute_msdp_reg', lambda i: ((X[i], S, D), dict(threshold=c['t'])))
            add('importance_msdp_reg', lambda i: ((X[i], D), drop_C(dict(k, stop=c['stop'], threshold=c['t']))), 'imp')
            add('importance_msdp_reg_search', lambda i: ((X[i], D), drop_C(dict(k, stop=c['stop'], threshold=c['t']))), 'imp')
    add('predict', lambda i: ((X[i],), {}))
    return out


def agn_methods(a, c):
    form, X, y, D, yd, S = c['form'], a.X, a.y, a.data, a.yd, c['S']
    acx = form in ('acx', 'ranger')
    pick = lambda s, i: [list(s[j]) for j in i]  # noqa
    base = lambda i: (X[i], y[i], D, yd)  # noqa
    pl = O.groups(a.d, c['C'])
    down, up, cond = np.array(c['down']), np.array(c['up']), gen.units(c, np.array(c['cond'], dtype=float))

    def kw(i):
        k = dict(min_node_size=c['nmin'])
        if acx:
            if not (a.clf or c['default']):
                k['t'] = a.t[i]
        else:
            k.update(classifier=a.cls, t=np.zeros((len(i), 2)) if a.clf else a.t[i])
        return k

    sk = dict(C=c['C'], pi_level=c['pi'], minimal=min(c['min'], len(pl)), stop=c['stop'])
    out = []
    add = lambda *x, **k: out.append(M(*x, **k))  # noqa
    sets = lambda i: (base(i) + (pick(S, i),), kw(i))  # noqa
    search = lambda i: (base(i), drop_C(dict(kw(i), **sk)))  # noqa
    for m in ('compute_sdp_rf', 'compute_exp_rf') + (('compute_ddp_rf',) if acx else ()):
        add(m, sets)
    add('importance_sdp_rf', search, 'imp')
    add('sufficient_expl_rf', search, 'expl')
    if acx:
        add('compute_cdf_rf', lambda i: (base(i) + (pick(S, i),), dict(
            {} if c['default'] else {'t': down[i]}, min_node_size=c['nmin'])))
        cdp = lambda i: (X[i], y[i], down[i], up[i], D, yd)  # noqa
        add('compute_cdp_rf', lambda i: (cdp(i) + (pick(S, i),), kw(i)))
        for m in ('compute_sdp_rule', 'compute_ddp_rule'):
            add(m, sets, 'tup')
        add('compute_cdp_rule', lambda i: (cdp(i) + (pick(S, i),), kw(i)), 'tup')
        for v in (False, True):
            add('compute_ddp_weights', lambda i, v=v: (base(i) + (pick(S, i),), dict(kw(i), verbose=v)), 'tup')
            add('compute_cdp_weights', lambda i, v=v: (cdp(i) + (pick(S, i),), dict(kw(i), verbose=v)), 'tup')
            add('compute_sdp_maxrules', lambda i, v=v: (base(i) + (pick(S, i),), dict(kw(i), algo2=True, verbose=v, pi_level=c['pi'])), 'tup')
        add('compute_sdp_maxrules', lambda i: (base(i) + (pick(S, i),), dict(
            kw(i), pi_level=c['pi'], n_try=5, batch=3, max_iter=4, max_iter_convergence=3)), 'tup', rng=True)
        add('compute_ddp_cond_weights', lambda i: (base(i) + (pick(S, i), cond[i]), kw(i)), 'tup')
        add('compute_cdp_cond_weights', lambda i: (cdp(i) + (pick(S, i), cond[i]), kw(i)), 'tup')
        for m in ('compute_ddp_intv_weights', 'compute_cdp_intv_weights'):
            add(m, lambda i: (base(i) + (pick(S, i), cond[i]), kw(i)), 'tup')
        for m in ('compute_ddp_intv_same', 'compute_cdp_intv_same'):
            add(m, lambda i: (base(i) + (list(S[0]), cond[i]), kw(i)))
        add('importance_ddp_rf', search, 'imp')
        add('importance_cdp_rf', lambda i: (cdp(i), drop_C(dict(kw(i), **sk))), 'imp')
        for m in ('importance_ddp_intv', 'importance_cdp_intv'):
            add(m, lambda i: (base(i) + (cond[i],), drop_C(dict(kw(i), **sk))), 'imp')
        add('sufficient_cxpl_rf', search, 'expl')
        add('predict', lambda i: ((X[i],), {}))
        if a.clf:
            add('predict_proba', lambda i: ((X[i],), {}))
    else:
        k = dict(min_node_size=c['nmin'])
        add('compute_cdf_rf', lambda i: (base(i) + (pick(S, i),), dict(k, classifier=a.cls, t=down[i])))
        q = dict(k, classifier=a.cls, t=20., quantile=60.)
        add('compute_quantile_rf', lambda i: (base(i) + (pick(S, i),), q))
        add('compute_quantile_diff_rf', lambda i: (base(i) + (pick(S, i),), q))
        S0 = list(S[0])
        add('compute_exp_shaff', lambda i: ((X[i], D, yd, list(S0)), k))
        add('compute_sdp_clf_shaff', lambda i: ((X[i], y[i], D, yd, list(S0)), k))
        add('compute_sdp_shaff', lambda i: ((X[i], y[i], 0.3, D, yd, list(S0)), k))
        add('compute_quantile_shaff', lambda i: ((X[i], D, yd, list(S0)), dict(k, quantile=60.)))
        if form == 'agn':
            add('compute_sdp_rf_v0', lambda i: (base(i) + (list(S0),), dict(k, classifier=a.cls, t=0.3)))
            add('compute_sdp_rule', sets, 'tup')
            add('compute_sdp_rule_v0', lambda i: (base(i) + (pick(S, i),), dict(k, classifier=a.cls, t=0.3)), 'tup')
            add('compute_sdp_maxrules', lambda i: (base(i) + (pick(S, i),), dict(kw(i), pi=c['pi'])), 'tup')
            for m in ('compute_sdp_maxrules_opti', 'compute_sdp_maxrules_v0'):
                add(m, lambda i: (base(i) + (pick(S, i),), dict(k, classifier=a.cls, t=0.3, pi=c['pi'])), 'tup')
            add('importance_sdp_rf_v0', lambda i: (base(i), drop_C(dict(k, classifier=a.cls, t=0.3, **sk))), 'imp')
    return out


# ---- one object asked many things, fresh objects asked one thing
def judge(ctx, pre, ctor, methods, c, n, threads=None):
    """pre: steps building the model; ctor(id): steps building an explainer."""
    ms = [methods[int(z) % len(methods)] for z in c['calls']]
    ms = ms + [ms[0]]
    allr = list(range(n))
    many = [int(z) % n for z in c['idx']]
    steps, tags = list(pre), [None] * len(pre)

    def put(ss, tag=None):
        for s in ss[:-1]:
            steps.append(s)
            tags.append(None)
        steps.append(ss[-1])
        tags.append(tag)

    seed = {'op': 'seed', 'n': c['seed']}
    put(ctor('a'))
    for q, m in enumerate(ms):
        put([seed, m.step(allr, 'a')], ('all', q, allr))
    for q, m in enumerate(ms[:-1]):
        i = 'f%d' % q
        put(ctor(i))
        put([seed, m.step(allr, i)], ('fresh', q, allr))
        if not m.rng:
            put([m.step(many, i)], ('many', q, many))
            for j in allr:
                put([m.step([j], i)], ('one', q, [j]))
    r = ctx.prog(steps)
    got = {}
    for s, t, x in zip(steps, tags, r):
        if t is None:
            if 'exc' in x:
                raise Violation(s.get('m') or s['op'], 'raised %s: %s\n%s' % x['exc'])
            continue
        m = ms[t[1]]
        if x.get('mut'):
            raise Violation(m.name, 'modified its arguments (%s)' % t[0])
        if 'exc' in x:
            if t[0] == 'all' and t[1] == 0 or t[0] == 'fresh':
                raise Violation(m.name, 'raised %s: %s\n%s' % x['exc'])
            raise Violation(m.name, 'called %s, raised %s: %s\n%s' % ((WHAT[t[0]],) + x['exc']))
        got.setdefault(t[:2], []).append((t[2], x['ok']))
    varied = False
    for (kind, q), rs in sorted(got.items()):
        m = ms[q]
        ref = got[('fresh', q if q < len(ms) - 1 else 0)][0][1]
        for idx, v in rs:
            for p, j in enumerate(idx):
                try:
                    x, w = row_of(m.mode, v, p), row_of(m.mode, ref, j)
                except (IndexError, TypeError, ValueError) as e:
                    raise Violation(m.name, '%s: unexpected answer %.300r (%s)' % (WHAT[kind], v, e))
                if not agree(x, w):
                    raise Violation(m.name, 'row %d: %s %.300r, on a new explainer with all rows %.300r'
                                    % (j, WHAT[kind], x, w))
            if m.mode == 'imp':
                ones = got.get(('one', q))
                if ones and kind == 'many':
                    w = sum(np.asarray(ones[j][1][0], dtype=float) for j in idx) / len(idx)
                    if not agree(clean(np.asarray(v[0])), w.tolist()):
                        raise Violation(m.name, 'importance %s, the mean over its rows is %s' % (clean(v[0]), w.tolist()))
        if kind == 'fresh':
            o = [row_of(m.mode, ref, j) for j in range(n)]
            varied = varied or any(not agree(o[0], z) for z in o)
        ctx.label(m.name)
    ctx.nontrivial = varied


WHAT = {'all': 'after other calls', 'fresh': 'on a new explainer', 'many': 'with rows reordered and repeated', 'one': 'alone'}


@st.composite
def history(draw, c, calls=(2, 4), rows=(2, 9)):
    c['calls'] = draw(st.lists(st.integers(0, 10 ** 4), min_size=calls[0], max_size=calls[1]))
    c['idx'] = draw(st.lists(st.integers(0, 10 ** 4), min_size=rows[0], max_size=rows[1]))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['C'] = draw(gen.coalitions(c['d'], 40))
    c['pi'] = draw(st.sampled_from(LEVELS))
    c['min'] = draw(st.sampled_from([0, 1, 1, 2]))
    c['stop'] = draw(st.booleans())
    return c


@st.composite
def split(draw, players):
    perm = list(draw(st.permutations(range(len(players)))))
    n = draw(st.integers(1, len(players)))
    return [[v for i in perm[:n] for v in players[i]], [v for i in perm[n:] for v in players[i]]]


@st.composite
def tree_case(draw):
    c = draw(forest_case(['dict', 'dict1', 'sk_clf', 'sk_clf', 'sk_reg', 'dt_clf', 'dt_reg'], d_lo=1, d_hi=4, trees=3,
                         depth=3, data=(2, 10), X=(1, 4), full=80))
    c = draw(history(c))
    d, pl = c['d'], O.groups(c['d'], c['C'])
    c['S'] = draw(gen.some(d))
    c['A'], c['N'] = draw(split(pl))
    c['rows'] = [draw(split(pl)) for _ in c['X']]
    c['space'] = draw(gen.subset(d, 1))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3, 12.7]))
    c['mt'] = draw(st.booleans())
    return c


def tree_run(c, ctx):
    b = Built(c, acv_k={'cache': True, 'cache_normalized': True, 'multi_threads': c['mt'], 'C': c['C']})
    new = b.steps[-1]
    judge(ctx, b.steps[:-1], lambda i: [dict(new, id=i)], tree_methods(b, c), c, b.F.n)
    ctx.label('form:' + c['form'])


@st.composite
def agn_hist(draw, forms):
    c = draw(agn_case(forms, unit=True, d_hi=4, X=(1, 3), nmin=(1, 1, 2, 3), full=85, data=(4, 12), inside=85))
    return draw(agn_extra(draw(history(c))))


@st.composite
def agn_extra(draw, c):
    q = st.integers(-8, 8).map(lambda v: v / 4.0)
    n = len(c['X'])
    c['down'] = draw(st.lists(q, min_size=n, max_size=n))
    c['up'] = [v + draw(st.integers(0, 8)) / 4.0 for v in c['down']]
    c['cond'] = [draw(box(c['d'])) for _ in range(n)]
    c['default'] = gen.chance(draw, 30)
    return c


def agn_run(c, ctx):
    a = Agn(c)
    new = a.steps[-1]
    judge(ctx, a.steps[:-1], lambda i: [dict(new, id=i)], agn_methods(a, c), c, a.n)
    ctx.label('form:' + c['form'], 'clf' if a.clf else 'reg')


# ---- an explainer fitted again
@st.composite
def refit_case(draw):
    c = draw(ranger_case(X=(1, 3)))
    c = draw(agn_extra(draw(history(c, calls=(1, 3)))))
    o = draw(ranger_case(X=(1, 1), clf=c['clf'], d=(1, 5)))
    c['old'] = {k: o[k] for k in ('data', 'yd', 'd')}
    c['used'] = gen.chance(draw, 85)
    c['first'] = draw(st.sampled_from(['compute_sdp_rf', 'compute_exp_rf', 'check_is_explainer']))
    return c


class Plain(Agn):
    def __init__(self, c):
        self.c, self.d, self.clf = c, c['d'], c['clf']
        self.data, self.X = arr(c['data'], c['d']), arr(c['X'], c['d'])
        self.yd, self.y = np.array(c['yd'], dtype=float), np.array(c['y'], dtype=float)
        self.n, self.cls = len(self.X), int(c['clf'])
        self.t = None if c['clf'] else np.array(c['t'], dtype=float).reshape(-1, 2)


def refit_run(c, ctx):
    a = Plain(c)
    od, oy = arr(c['old']['data'], c['old']['d']), np.array(c['old']['yd'], dtype=float)
    new = {'op': 'new', 'kind': 'acx', 'k': dict(c['params'], mtry=1, classifier=bool(c['clf']))}
    fit = lambda i, D, y: {'op': 'call', 'obj': i, 'm': 'fit', 'a': [D, y], 'k': {}}  # noqa
    build = lambda i: [dict(new, id=i), fit(i, a.data, a.yd)]  # noqa
    ms = agn_methods(a, c)
    ms = [ms[int(z) % len(ms)] for z in c['calls']]
    allr = list(range(a.n))
    seed = {'op': 'seed', 'n': c['seed']}
    steps = [dict(new, id='a'), fit('a', od, oy)]
    if c['used']:
        f = {'op': 'call', 'obj': 'a', 'm': c['first'], 'a': [], 'k': {}}
        if c['first'] != 'check_is_explainer':
            f['a'] = [od[:1], oy[:1], od, oy, [[0]]]
            f['k'] = {} if a.clf else {'t': np.array([[oy[0] - 1, oy[0] + 1]])}
        steps.append(f)
    steps += [seed, fit('a', a.data, a.yd)]  # ranger's quantiles draw from the global generator
    k0 = len(steps)
    for m in ms:
        steps += [seed, m.step(allr, 'a')]
    k1 = len(steps)
    steps += [seed] + build('b')
    k2 = len(steps)
    for m in ms:
        steps += [seed, m.step(allr, 'b')]
    # a forest without any split cannot be loaded: outside of the domain
    fs = ctx.values(build('b') + [{'op': 'forest', 'obj': 'b', 'attr': 'model'}, dict(new, id='a'), fit('a', od, oy),
                                  {'op': 'forest', 'obj': 'a', 'attr': 'model'}])
    for z in (fs[2], fs[5]):
        if all(np.asarray(t['children_left'])[0] <= 0 for t in z):
            raise Skip()
    r = ctx.prog(steps)
    for s, x in list(zip(steps, r))[:k0] + list(zip(steps, r))[k1:]:
        if 'exc' in x:
            raise Violation(s.get('m') or s['op'], 'raised %s: %s\n%s' % x['exc'])
    for q, m in enumerate(ms):
        x, w = r[k0 + 2 * q + 1], r[k2 + 2 * q + 1]
        if 'exc' in x:
            raise Violation(m.name, 'after fitting again, raised %s: %s\n%s' % x['exc'])
        for j in allr:
            g, e = row_of(m.mode, x['ok'], j), row_of(m.mode, w['ok'], j)
            if not agree(g, e):
                raise Violation(m.name, 'row %d: after fitting again %.300r, on an explainer fitted once %.300r' % (j, g, e))
    ctx.label('first use:' + (c['first'] if c['used'] else 'none'), 'same width' if c['d'] == c['old']['d'] else 'another width')
    ctx.nontrivial = c['used']


# ---- many rows at once, on several threads
@st.composite
def thread_case(draw):
    c = draw(forest_case(['dict', 'sk_clf', 'sk_clf', 'sk_reg'], d_lo=2, d_hi=5, trees=4, depth=3, data=(6, 14), X=(3, 6),
                         full=95))
    c = draw(history(c, calls=(2, 3), rows=(1, 1)))
    d, pl = c['d'], O.groups(c['d'], c['C'])
    c['S'] = draw(gen.some(d))
    c['A'], c['N'] = draw(split(pl))
    c['rows'] = [draw(split(pl)) for _ in c['X']]
    c['space'] = draw(gen.subset(d, 1))
    c['t'] = draw(st.sampled_from([0.03, 0.3, 1.1, 4.3]))
    c['mt'] = True
    c['reps'] = draw(st.integers(20, 60))
    c['th'] = draw(st.sampled_from([2, 3, 5, 8, 16]))
    c['shift'] = draw(st.integers(0, 5))
    return c


THREADED = {'shap_values', 'shap_values_acv', 'shap_values_acv_adap', 'compute_sdp_clf', 'compute_sdp_clf_cat', 'compute_exp',
            'compute_exp_cat', 'compute_exp_normalized', 'shap_values_normalized', 'compute_sdp_reg', 'compute_sdp_reg_cat',
            'swing_sv_clf', 'swing_sv_clf_slow', 'shap_values_cache', 'shap_values_normalized_cache'}
IMPLICIT = {'importance_sdp_clf', 'importance_sdp_clf_greedy', 'importance_sdp_clf_search', 'importance_sdp_clf_ptrees',
            'importance_sdp_reg', 'importance_sdp_reg_cat', 'demo_swing_sv_clf', 'demo_swing_sv_clf_cat',
            'importance_msdp_clf_search', 'compute_msdp_clf'}


def thread_run(c, ctx):
    b = Built(c, acv_k={'cache': True, 'cache_normalized': True, 'multi_threads': True, 'C': c['C']})
    n = b.F.n
    ms = [m for m in tree_methods(b, c) if m.name in THREADED | IMPLICIT]
    ms = [ms[int(z) % len(ms)] for z in c['calls']]
    many = [(j + c['shift'] * (j // n)) % n for j in range(n * c['reps'])]
    steps, tags = list(b.steps), [None] * len(b.steps)
    for q, m in enumerate(ms):
        for kind, idx in (('ref', list(range(n))), ('many', many), ('many', many)):
            s = m.step(idx, 'a')
            if m.name in THREADED:
                s['k'] = dict(s['k'], num_threads=1 if kind == 'ref' else c['th'])
            steps.append(s)
            tags.append((q, kind, idx))
    r = ctx.values(steps)
    ref = {}
    for t, x in zip(tags, r):
        if t is None:
            continue
        m = ms[t[0]]
        if t[1] == 'ref':
            ref[t[0]] = [row_of(m.mode, x, j) for j in range(n)]
            continue
        for p, j in enumerate(t[2]):
            g = row_of(m.mode, x, p)
            if not agree(g, ref[t[0]][j]):
                raise Violation(m.name, 'row %d as number %d of %d, %d threads: %.300r, alone %.300r'
                                % (j, p, len(t[2]), c['th'], g, ref[t[0]][j]))
        ctx.label(m.name)
    ctx.nontrivial = any(not agree(z[0], x) for z in ref.values() for x in z)


@st.composite
def batch_case(draw):
    s = draw(bulk.shape(['acx', 'acx', 'tree', 'agn'], d=(2, 5), trees=(1, 5), depth=(2, 5), N=(40, 160), n=(2, 4)))
    c = draw(history({'bulk': s, 'd': s['d']}, calls=(1, 2), rows=(1, 1)))
    c['reps'], c['shift'] = draw(st.integers(8, 40)), draw(st.integers(0, 5))
    return c


def batch_run(c, ctx):
    a = Agn(c)
    n, seed = a.n, {'op': 'seed', 'n': c['seed']}
    ms = [m for m in agn_methods(a, c) if not m.rng]
    ms = [ms[int(z) % len(ms)] for z in c['calls']]
    many = [(j + c['shift'] * (j // n)) % n for j in range(n * c['reps'])]
    steps = list(a.steps)
    for m in ms:
        for idx in (many, list(range(n)), many[::-1]):
            steps += [seed, m.step(idx, 'a')]
    r = ctx.values(steps)[len(a.steps) + 1::2]
    for q, m in enumerate(ms):
        first, ref, last = r[3 * q:3 * q + 3]
        w = [row_of(m.mode, ref, j) for j in range(n)]
        for x, idx in ((first, many), (last, many[::-1])):
            for p, j in enumerate(idx):
                g = row_of(m.mode, x, p)
                if not agree(g, w[j]):
                    raise Violation(m.name, 'row %d as number %d of %d: %.300r, among %d rows %.300r'
                                    % (j, p, len(idx), g, n, w[j]))
        ctx.label(m.name)
        ctx.nontrivial = ctx.nontrivial or any(not agree(w[0], z) for z in w)


# ---- the same numbers in arrays of another layout or type
LAYOUT = ('F', 'strided', 'reversed', 'cut')
OTHER = ('float32', 'int', 'list', 'frame', 'readonly')


def reform(kind, a):
    """The arguments whose numbers the form can hold, in that form. (Whatever computes on the outputs of the data
    does so in their type: float32 is kept from the explainers of the data's own outputs.)"""
    if isinstance(a, np.ndarray) and a.dtype == np.float64:
        if kind == 'float32' and not np.array_equal(a, a.astype(np.float32)):
            return a
        if kind == 'int' and not np.array_equal(a, np.round(np.clip(a, -2. ** 53, 2. ** 53))):
            return a
        return ('__form__', kind, a)
    if isinstance(a, (list, tuple)):
        return type(a)(reform(kind, x) for x in a)
    if isinstance(a, dict):
        return {k: reform(kind, v) for k, v in a.items()}
    return a


def form_judge(ctx, pre, methods, c, n, strict):
    """The last step of pre builds the explainer."""
    allr = list(range(n))
    ms = [methods[int(z) % len(methods)] for z in c['calls']]
    seed = {'op': 'seed', 'n': c['seed']}
    steps = list(pre)
    for m in ms:
        steps += [seed, m.step(allr, 'a')]
        for kind in c['kinds']:
            s = m.step(allr, 'a')
            s.pop('wreck')
            steps += [seed, dict(s, a=reform(kind, s['a']), k=reform(kind, s['k']))]
    steps.append(dict(pre[-1], id='z', data=reform(c['ctor'], pre[-1].get('data'))))
    for m in ms:
        steps += [seed, m.step(allr, 'z')]
    r = ctx.prog(steps)
    for s, x in zip(steps[:len(pre)], r):
        if 'exc' in x:
            raise Violation(s.get('m') or s['op'], 'raised %s: %s\n%s' % x['exc'])
    last = r[-2 * len(ms):][1::2]
    if 'exc' in r[-2 * len(ms) - 1]:
        ctx.label('constructor refused:' + c['ctor'])
        last = [None] * len(ms)
    else:
        ctx.label('constructor answered:' + c['ctor'])
    r = r[len(pre) + 1::2]
    differ = False
    for m, z in zip(ms, last):
        ref, r = r[0], r[1:]
        if 'exc' in ref:
            raise Violation(m.name, 'raised %s: %s\n%s' % ref['exc'])
        w = [row_of(m.mode, ref['ok'], j) for j in allr]
        if z is not None:
            if 'exc' in z:
                raise Violation(m.name, 'built with %s data, raised %s: %s\n%s' % ((c['ctor'],) + z['exc']))
            for j in allr:
                if not agree(row_of(m.mode, z['ok'], j), w[j]):
                    raise Violation(m.name, 'row %d: %.300r built with %s data, %.300r with contiguous float64 data'
                                    % (j, z['ok'], c['ctor'], w[j]))
        for kind in c['kinds']:
            x, r = r[0], r[1:]
            if x.get('mut'):
                raise Violation(m.name, 'modified its arguments, given as %s' % kind)
            if 'exc' in x:
                if strict and kind in LAYOUT:
                    raise Violation(m.name, 'with %s arrays, raised %s: %s\n%s' % ((kind,) + x['exc']))
                ctx.label('refused:' + kind)
                continue
            for j in allr:
                try:
                    g = row_of(m.mode, x['ok'], j)
                except (IndexError, TypeError, ValueError) as e:
                    raise Violation(m.name, 'with %s arrays: unexpected answer %.300r (%s)' % (kind, x['ok'], e))
                if not agree(g, w[j]):
                    raise Violation(m.name, 'row %d: %.300r with %s arrays, %.300r with contiguous float64 arrays'
                                    % (j, g, kind, w[j]))
            differ = differ or any(not agree(w[0], z) for z in w)
            ctx.label('answered:' + kind)
        ctx.label(m.name)
    ctx.nontrivial = differ


@st.composite
def formed(draw, case, kinds):
    c = draw(case)
    c['kinds'] = draw(st.lists(st.sampled_from(kinds), min_size=2, max_size=3, unique=True))
    c['ctor'] = draw(st.sampled_from(LAYOUT + OTHER))
    return c


def form_tree_run(c, ctx):
    b = Built(c, acv_k={'cache': True, 'cache_normalized': True, 'multi_threads': c['mt'], 'C': c['C']})
    form_judge(ctx, b.steps, tree_methods(b, c), c, b.F.n, True)
    ctx.label('form:' + c['form'])


def form_agn_run(c, ctx):
    a = Agn(c)
    form_judge(ctx, a.steps, agn_methods(a, c), c, a.n, False)  # most refuse an array that is not C-contiguous
    ctx.label('form:' + c['form'], 'clf' if a.clf else 'reg')


RULE = ('Histories of 2-4 calls out of all entry points of ACVTree (with caches, over dictionaries, forests and trees), '
        'ACXplainer and ACVTreeAgnostic, the first one repeated at the end and every returned array overwritten in '
        'between; each compared with a new explainer asked once, with the rows permuted and repeated, and row by row; '
        'the arguments are compared with copies. ACXplainer fitted on other data (and used) before. Batches of up to '
        '360 rows on 2-16 threads against one thread; batches of up to 160 rows over 40-160 training rows. Non-trivial: two rows have different answers / the explainer '
        'was used before it was fitted again.')
FACETS = [Facet('threads', thread_case, thread_run, quick=100, thorough=6000, shards=4),
          Facet('batch', batch_case, bulk.big(batch_run), quick=32, thorough=1500, shards=8),
          Facet('tree', tree_case, tree_run, quick=500, thorough=30000, shards=8),
          Facet('acx', lambda: agn_hist(['acx']), agn_run, quick=350, thorough=20000, shards=8),
          Facet('agn', lambda: agn_hist(['tree', 'agn']), agn_run, quick=300, thorough=20000, shards=8),
          Facet('refit', refit_case, refit_run, quick=60, thorough=4000, shards=4),
          Facet('forms', lambda: formed(tree_case(), LAYOUT + LAYOUT + OTHER), form_tree_run, quick=250, thorough=15000, shards=4),
          Facet('agnforms', lambda: formed(agn_hist(['acx', 'acx', 'tree', 'agn']), LAYOUT + OTHER[1:]), form_agn_run, quick=250, thorough=15000,
                shards=4)]
