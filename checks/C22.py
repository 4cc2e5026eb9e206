"""C22: a call that makes no sense is refused, and leaves no trace."""
import numpy as np
from hypothesis import strategies as st

import gen
from checks.agn import Agn, ranger_case
from checks.C20 import Plain, agn_extra, agn_hist, agn_methods, agree, history, row_of
from harness import Facet, Skip, Violation

PROP = 'C22'
BAD = ['short', 'long', 'hole', 'inf', 'none', 'dims']
# entry points that take the rows and subsets as they come
UNCHECKED = {'compute_quantile_rf', 'compute_quantile_diff_rf', 'compute_exp_shaff', 'compute_sdp_clf_shaff', 'compute_sdp_shaff',
             'compute_quantile_shaff', 'predict', 'predict_proba'}


def spoil(v, how, at):
    """The array (or list of subsets) v, spoilt; None when that is not possible."""
    if isinstance(v, list):  # the subsets
        if how == 'short':
            return v[:-1]
        return v + [list(v[at % len(v)])] if how == 'long' else None
    v = v.copy()
    if how == 'short':
        return v[:-1]
    if how == 'long':
        return np.concatenate([v, v[at % len(v)][None]])
    if how in ('hole', 'inf'):
        v[np.unravel_index(at % v.size, v.shape)] = np.nan if how == 'hole' else np.inf * (1 if at % 2 else -1)
        return v
    if how == 'none':
        return v[:0]
    return v.ravel() if v.ndim == 2 else np.stack([v, v], axis=1)


def targets(m, a):
    """Positions of the rows, their outputs, the data, their outputs and the subsets among the arguments."""
    n = 2 if a[2].ndim == 1 else 0  # the bounds of the region come after the outputs
    out = [0, 1, 2 + n, 3 + n]
    if len(a) > 4 + n and isinstance(a[4 + n], list) and not m.name.endswith('_same'):  # that one has one subset
        out.append(4 + n)
    return out


@st.composite
def spoilt(draw, c):
    c['bad'] = [[draw(st.integers(0, 6)), draw(st.sampled_from(BAD)), draw(st.integers(0, 10 ** 4))] for _ in c['calls']]
    return c


@st.composite
def case(draw):
    return draw(spoilt(draw(agn_hist(['acx', 'acx', 'tree']))))


def spoil_step(m, s, bad):
    """(step, what) or None."""
    a = list(s['a'])
    ts = targets(m, a)
    p = ts[-1 if bad[0] > 3 else bad[0]]
    how = bad[1]
    if isinstance(a[p], list):
        how = 'short' if BAD.index(how) % 2 else 'long'
    v = spoil(a[p], how, bad[2])
    if v is None:
        return None
    what = ('rows', 'outputs', 'data', 'outputs of the data', 'subsets')[ts.index(p)]
    if what == 'rows' and bad[1] == 'dims' and a[p].shape[1] == 1:
        return None
    if what == 'data' and bad[1] == 'dims' and a[p].shape[1] == 1:
        return None
    a[p] = v
    s = {k: v for k, v in s.items() if k != 'wreck'}
    return dict(s, a=a), '%s: %s' % (what, how)


def run(c, ctx):
    a = Agn(c)
    ms = [m for m in agn_methods(a, c) if m.name not in UNCHECKED]
    ms = [ms[int(z) % len(ms)] for z in c['calls']]
    refuse(ctx, a.steps, ms, c, a.n)
    ctx.label('form:' + c['form'], 'clf' if a.clf else 'reg')


def refuse(ctx, pre, ms, c, n):
    allr = list(range(n))
    seed = {'op': 'seed', 'n': c['seed']}
    steps, tags = list(pre), [None] * len(pre)
    new = dict(pre[-1], id='b')
    for q, m in enumerate(ms):
        x = spoil_step(m, m.step(allr, 'a'), c['bad'][q])
        if x is not None:
            steps.append(x[0])
            tags.append(('bad', q, x[1]))
        steps += [seed, m.step(allr, 'a')]
        tags += [None, ('after', q, None)]
    steps.append(new)
    tags.append(None)
    for q, m in enumerate(ms):
        steps += [seed, m.step(allr, 'b')]
        tags += [None, ('ref', q, None)]
    if not any(t and t[0] == 'bad' for t in tags):
        raise Skip()
    r = ctx.prog(steps)
    got = {}
    for s, t, x in zip(steps, tags, r):
        if t is None:
            if 'exc' in x:
                raise Violation(s.get('m') or s['op'], 'raised %s: %s\n%s' % x['exc'])
            continue
        m = ms[t[1]]
        if t[0] == 'bad':
            if 'exc' not in x:
                raise Violation(m.name, 'answered a call with bad arguments (%s)' % t[2])
            ctx.label(t[2], m.name)
            continue
        if 'exc' in x:
            raise Violation(m.name, ('after a refused call, ' if t[0] == 'after' else '') + 'raised %s: %s\n%s' % x['exc'])
        got[t[:2]] = x['ok']
    for q, m in enumerate(ms):
        for j in allr:
            x, w = row_of(m.mode, got['after', q], j), row_of(m.mode, got['ref', q], j)
            if not agree(x, w):
                raise Violation(m.name, 'row %d: after a refused call %.300r, on a new explainer %.300r' % (j, x, w))
    ctx.nontrivial = True


# ---- fitting, and asking before fitting
@st.composite
def fit_case(draw):
    c = draw(ranger_case(X=(1, 2)))
    c = draw(agn_extra(draw(history(c, calls=(1, 3)))))
    c['bad'] = [draw(st.integers(0, 1)), draw(st.sampled_from(BAD)), draw(st.integers(0, 10 ** 4))]
    c['early'] = draw(st.booleans())
    c['rules'] = draw(st.sampled_from(['predict_global_rules', 'predict_proba_global_rules']))
    return c


def fit_run(c, ctx):
    a = Plain(c)
    new = {'op': 'new', 'kind': 'acx', 'k': dict(c['params'], mtry=1, classifier=bool(c['clf']))}
    fit = lambda i, *x: {'op': 'call', 'obj': i, 'm': 'fit', 'a': list(x), 'k': {}}  # noqa
    ms = agn_methods(a, c)
    ms = [ms[int(z) % len(ms)] for z in c['calls']]
    allr, seed = list(range(a.n)), {'op': 'seed', 'n': c['seed']}
    bad = [a.data, a.yd]
    bad[c['bad'][0]] = spoil(bad[c['bad'][0]], c['bad'][1], c['bad'][2])
    if c['bad'][1] == 'dims' and a.d == 1:
        raise Skip()
    steps, tags = [dict(new, id='a')], [None]

    def put(s, t):
        steps.append(s)
        tags.append(t)

    if c['early']:
        for m in ms:
            put(m.step(allr, 'a'), ('before it is fitted', m))
    else:
        put(seed, None)
        put(fit('a', a.data, a.yd), None)
    put({'op': 'call', 'obj': 'a', 'm': c['rules'], 'a': [a.X], 'k': {}}, ('before the global rules are fitted', None))
    put(fit('a', *bad), ('with bad arguments (%s: %s)' % (('rows', 'outputs')[c['bad'][0]], c['bad'][1]), None))
    for i in 'ab':
        if i == 'b':
            put(dict(new, id='b'), None)
        put(seed, None)
        put(fit(i, a.data, a.yd), None)
        put({'op': 'forest', 'obj': i, 'attr': 'model'}, 'forest')
        for m in ms:
            put(seed, None)
            put(m.step(allr, i), i)
    r = ctx.prog(steps)
    for x, t in zip(r, tags):
        if t == 'forest' and 'ok' in x and all(np.asarray(z['children_left'])[0] <= 0 for z in x['ok']):
            raise Skip()  # a forest without any split cannot be loaded
    out = {'a': [], 'b': []}
    for s, t, x in zip(steps, tags, r):
        name = s.get('m') or s['op']
        if isinstance(t, tuple):
            if 'exc' not in x:
                raise Violation(name, 'answered ' + t[0])
            ctx.label(t[0])
        elif 'exc' in x:
            raise Violation(name, 'raised %s: %s\n%s' % x['exc'])
        elif t in ('a', 'b'):
            out[t].append(x['ok'])
    for m, x, w in zip(ms, out['a'], out['b']):
        for j in allr:
            g, e = row_of(m.mode, x, j), row_of(m.mode, w, j)
            if not agree(g, e):
                raise Violation(m.name, 'row %d: after refused calls %.300r, on a new explainer %.300r' % (j, g, e))
    ctx.nontrivial = True


# ---- models that cannot be explained
FITTED = ['linear_model.LinearRegression', 'linear_model.LogisticRegression', 'neighbors.KNeighborsRegressor', 'naive_bayes.GaussianNB',
          'svm.SVC', 'ensemble.BaggingRegressor', 'ensemble.AdaBoostRegressor', 'ensemble.RandomTreesEmbedding']
UNFIT = ['ensemble.RandomForestClassifier', 'ensemble.RandomForestRegressor', 'ensemble.ExtraTreesClassifier',
         'ensemble.ExtraTreesRegressor', 'ensemble.IsolationForest', 'ensemble.GradientBoostingRegressor',
         'ensemble.GradientBoostingClassifier', 'tree.DecisionTreeClassifier', 'tree.DecisionTreeRegressor']


@st.composite
def model_case(draw):
    fitted = draw(st.booleans())
    D = draw(gen.rows(6, 12, draw(st.integers(1, 4))))
    return {'cls': draw(st.sampled_from(FITTED if fitted else UNFIT)), 'fitted': fitted, 'data': D,
            'y': [i % 2 for i in range(len(D))], 'agn': draw(st.booleans())}


def model_run(c, ctx):
    D = np.array(c['data'], dtype=float)
    if c['fitted']:
        m = {'op': 'new', 'id': 'm', 'kind': 'fit', 'cls': 'sklearn.' + c['cls'], 'X': D, 'y': np.array(c['y'])}
    else:
        m = {'op': 'new', 'id': 'm', 'kind': 'obj', 'cls': 'sklearn.' + c['cls'].replace('.', ':')}
    r = ctx.prog([m, {'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'), 'data': D, 'agn': c['agn']}])
    if 'exc' in r[0]:
        raise Skip()
    if 'ok' in r[1]:
        raise Violation('load', 'accepted a model it cannot explain (%s, %sfitted)' % (c['cls'], '' if c['fitted'] else 'not '))
    ctx.label(c['cls'] + (' fitted' if c['fitted'] else ' not fitted'))
    ctx.nontrivial = True


RULE = ('Histories of 2-4 calls out of all entry points of ACXplainer and of the projected-forest methods of ACVTree, each '
        'preceded by the same call with one argument spoilt (rows, outputs, data, outputs of the data or subsets: one too '
        'few, one too many, a missing or infinite value, none at all, the wrong number of dimensions); fit called the same '
        'way, questions asked before fitting; models of other kinds or not fitted. Every such call must be refused and the right ones answered as by a new '
        'explainer. Non-trivial: some call was to be refused.')
FACETS = [Facet('calls', case, run, quick=600, thorough=15000, shards=8),
          Facet('fit', fit_case, fit_run, quick=100, thorough=4000, shards=4),
          Facet('models', model_case, model_run, quick=60, thorough=1000, shards=2)]
