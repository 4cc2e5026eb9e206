"""C24: copies of an explainer, and explainers saved and loaded again, answer as the original and live on their own."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.agn import ranger_case
from checks.C20 import Plain, agn_extra, agn_methods, agree, clean, history, row_of, tree_case, tree_methods
from checks.common import Built, arr
from harness import Facet, Skip, Violation, close

PROP = 'C24'
HOW = ['copy', 'deepcopy', 'pickle2', 'pickle', 'save', 'save_cr', 'joblib']


def stored(obj, how, id):
    return {'op': 'fn', 'f': 'toys:stored', 'a': [('__ref__', obj), how], 'k': {}, 'id': id, 'discard': True}


@st.composite
def places(draw, c, how=HOW):
    """Which explainer each call goes to, and where in the history copies are made of which explainer."""
    c['hist'] = draw(st.lists(st.tuples(st.sampled_from(['call', 'call', 'copy', 'refit']), st.integers(0, 99),
                                        st.integers(0, 10 ** 4), st.sampled_from(how)), min_size=2, max_size=7))
    c['hist'] = [list(h) for h in c['hist']]
    c['hist'].insert(draw(st.integers(0, len(c['hist']))), ['copy', 0, 0, draw(st.sampled_from(how))])
    return c


@st.composite
def tree_copies(draw):
    return draw(places(draw(tree_case())))


def replay(c, ctx, pre, build, methods, n, refit=None):
    """Runs the history; every answer must be that of an explainer newly built in the state its owner is in."""
    seed = {'op': 'seed', 'n': c['seed']}
    allr = list(range(n))
    steps, tags = list(pre) + [seed] + build('a', 0), []
    tags = [None] * len(steps)
    live, state, copies, asked = ['a'], {'a': 0}, 0, set()
    want = {}
    for what, who, z, how in c['hist']:
        o = live[who % len(live)]
        if what == 'copy':
            i = 'c%d' % copies
            copies += 1
            steps.append(stored(o, how, i))
            tags.append(('copy', how))
            live.append(i)
            state[i] = state[o]
        elif what == 'refit':
            if refit is None:
                continue
            state[o] = 1 - state[o]
            for s in [seed] + refit(o, state[o]):
                steps.append(s)
                tags.append(('refit',))
        else:
            ms = methods[state[o]]
            q = z % len(ms)
            steps += [seed, ms[q].step(allr, o)]
            tags += [None, ('call', state[o], q, o)]
            asked.add((state[o], q))
    for o in live:  # and everyone is asked the last questions
        ms = methods[state[o]]
        q = c['calls'][0] % len(ms)
        steps += [seed, ms[q].step(allr, o)]
        tags += [None, ('call', state[o], q, o)]
        asked.add((state[o], q))
    for k, (s_, q) in enumerate(sorted(asked)):
        i = 'n%d' % k
        steps += [seed] + build(i, s_) + [seed, methods[s_][q].step(allr, i)]
        tags += [None] * (len(steps) - len(tags) - 1) + [('new', s_, q)]
    r = ctx.prog(steps)
    for t, x in zip(tags, r):
        if t and t[0] == 'new':
            if 'exc' in x:
                raise Skip()  # judged by C20
            want[t[1:]] = x['ok']
    differ = False
    for s, t, x in zip(steps, tags, r):
        if 'exc' in x:
            site = '%s of an explainer' % t[1] if t and t[0] == 'copy' else s.get('m') or s['op']
            raise Violation(site, '%s raised %s: %s\n%s' % ((t,) + tuple(x['exc'])))
        if t and t[0] == 'call':
            m = methods[t[1]][t[2]]
            if x.get('mut'):
                raise Violation(m.name, 'modified its arguments')
            for j in allr:
                try:
                    g, w = row_of(m.mode, x['ok'], j), row_of(m.mode, want[t[1:3]], j)
                except (IndexError, TypeError, ValueError) as e:
                    raise Violation(m.name, 'unexpected answer %.300r (%s)' % (x['ok'], e))
                if not agree(g, w):
                    raise Violation(m.name, 'row %d: %s (%s) answers %.300r, a new explainer %.300r' % (
                        j, 'the original' if t[3] == 'a' else 'a copy', t[3], g, w))
            ctx.label(m.name)
    ctx.label(*['how:' + h[3] for h in c['hist'] if h[0] == 'copy'])
    ctx.nontrivial = copies > 0


def tree_run(c, ctx):
    b = Built(c, acv_k={'cache': True, 'cache_normalized': True, 'multi_threads': c['mt'], 'C': c['C']})
    new = b.steps[-1]
    replay(c, ctx, b.steps[:-1], lambda i, s: [dict(new, id=i)], [tree_methods(b, c)], b.F.n)
    ctx.label('form:' + c['form'])


# ---- explainers fitted by ranger, fitted again on other data in between
@st.composite
def ranger_copies(draw):
    c = draw(ranger_case(X=(1, 3)))
    c = draw(agn_extra(draw(history(c, calls=(1, 1)))))
    o = draw(ranger_case(X=(1, 1), clf=c['clf'], d=(c['d'], c['d'])))
    c['other'] = {k: o[k] for k in ('data', 'yd')}
    return draw(places(c, HOW[1:]))  # a shallow copy shares the fitted model


def ranger_run(c, ctx):
    one = Plain(c)
    two = Plain(dict(c, data=c['other']['data'], yd=c['other']['yd']))
    both = [one, two]
    new = {'op': 'new', 'kind': 'acx', 'k': dict(c['params'], classifier=bool(c['clf']))}
    fit = lambda i, s: {'op': 'call', 'obj': i, 'm': 'fit', 'a': [both[s].data, both[s].yd], 'k': {}}  # noqa
    fs = ctx.values([dict(new, id='a'), fit('a', 0), {'op': 'forest', 'obj': 'a', 'attr': 'model'},
                     dict(new, id='b'), fit('b', 1), {'op': 'forest', 'obj': 'b', 'attr': 'model'}])
    for z in (fs[2], fs[5]):  # a forest without any split cannot be loaded: outside of the domain
        if all(np.asarray(t['children_left'])[0] <= 0 for t in z):
            raise Skip()
    replay(c, ctx, [], lambda i, s: [dict(new, id=i), fit(i, s)], [agn_methods(x, c) for x in both], one.n,
           refit=lambda i, s: [fit(i, s)])
    ctx.label('clf' if c['clf'] else 'reg')


# ---- global rules
@st.composite
def rules_case(draw):
    d, n = draw(st.integers(1, 4)), draw(st.integers(3, 8))
    clf = draw(st.booleans())
    D = draw(gen.rows(n, n, d))
    c = {'d': d, 'clf': clf, 'data': D, 'yd': draw(st.lists(st.integers(0, 1) if clf else st.integers(-8, 8).map(lambda v: v / 4.), min_size=n, max_size=n)),
         'how': draw(st.sampled_from(HOW[1:])), 'seed': draw(st.integers(0, 10 ** 6))}
    c['fits'] = []
    for _ in range(2):
        fit = []
        for _ in range(draw(st.integers(1, 4))):
            row = D[draw(st.integers(0, n - 1))]
            S = draw(gen.some(d, 90))
            fit.append([[[row[v] - draw(st.integers(1, 3)) if v in S else -1e10, row[v] + draw(st.integers(0, 3)) if v in S else 1e10]
                         for v in range(d)], S])
        c['fits'].append(fit)
    c['X'] = draw(gen.rows(1, 4, d))
    c['order'] = draw(st.booleans())
    return c


def rules_run(c, ctx):
    D, y, X = arr(c['data'], c['d']), np.array(c['yd'], dtype=float), arr(c['X'], c['d'])
    new = lambda i: {'op': 'new', 'id': i, 'kind': 'acx', 'k': {'classifier': bool(c['clf']), 'n_estimators': 2, 'seed': 1}}  # noqa
    fit = lambda i: {'op': 'call', 'obj': i, 'm': 'fit', 'a': [D, y], 'k': {}}  # noqa
    rules = lambda i, k: {'op': 'call', 'obj': i, 'm': 'fit_global_rules', 'a': [D, y, np.array([r for r, _ in c['fits'][k]], dtype=float),  # noqa
                                                                                 [s for _, s in c['fits'][k]]], 'k': {}}
    names = ['predict_global_rules'] + ['predict_proba_global_rules'] * bool(c['clf'])
    ask = lambda i: [{'op': 'call', 'obj': i, 'm': m, 'a': [X], 'k': {}} for m in names]  # noqa
    if c['clf'] and len(set(c['yd'])) < 2:
        raise Skip()
    k = len(names)
    steps = [new('a'), fit('a'), rules('a', 0), stored('a', c['how'], 'b')]
    changed, kept = ('a', 'b') if c['order'] else ('b', 'a')
    steps += [rules(changed, 1)] + ask(kept) + ask(changed)
    for j in range(2):
        steps += [new('n%d' % j), fit('n%d' % j), rules('n%d' % j, j)] + ask('n%d' % j)
    r = ctx.values(steps)
    got = r[5:5 + k], r[5 + k:5 + 2 * k]
    at = 5 + 2 * k
    for j in range(2):
        want = r[at + 3:at + 3 + k]
        at += 3 + k
        for m, g, w in zip(names, got[j], want):
            if not same(g, w):
                raise Violation(m, '%s after %s, with the other one given other rules: %.300r, a new explainer %.300r' % (
                    'the copy' if (kept == 'b') == (j == 0) else 'the original', c['how'], g, w))
    ctx.label(c['how'], 'clf' if c['clf'] else 'reg')
    ctx.nontrivial = c['fits'][0] != c['fits'][1]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and same(a.tolist(), b.tolist())
    if a is None or b is None:
        return a is b
    return a == b or close(float(a), float(b))


RULE = ('Histories over an explainer and its copies (copy, deepcopy, pickle, joblib, save_model and load_model of both modules): '
        'calls of any method, copies of any of them, and for forests grown by ranger fitting one of them again on other data. '
        'Non-trivial: at least one copy; for global rules, the two sets of rules differ.')
FACETS = [Facet('tree', tree_copies, tree_run, quick=300, thorough=20000, shards=8),
          Facet('ranger', ranger_copies, ranger_run, quick=120, thorough=8000, shards=8),
          Facet('rules', rules_case, rules_run, quick=120, thorough=8000, shards=4)]
