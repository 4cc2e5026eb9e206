"""Shared by the checks of the projected-forest (agnostic) explainers: cases, construction, reference."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
import projected as P
from checks.common import arr
from harness import Skip, Violation, close, expect_close  # noqa: F401

EPS = 1e-9


@st.composite
def agn_case(draw, forms, d_lo=1, d_hi=4, trees=3, depth=3, data=(3, 14), X=(1, 3), full=75, nmin=(1, 1, 2, 3, 5),
             clf=None, sets=True, inside=70, unit=False):
    """A forest, training rows with outputs, rows to explain with their outputs and a subset each.

    form: 'acx' (ACXplainer holding exactly these trees), 'tree' (ACVTree), 'agn' (ACVTreeAgnostic).
    """
    form = draw(st.sampled_from(forms))
    clf = draw(st.booleans()) if clf is None else clf
    d = draw(st.integers(d_lo, d_hi))
    k = draw(st.sampled_from([2, 2, 3])) if clf else 1
    ts = draw(gen.forest(d, 1, trees, depth, gen.counts(k) if clf else gen.quarter(1), full=full, split=True))
    D = draw(gen.rows(data[0], data[1], d))
    out = st.integers(0, k - 1) if clf else st.integers(-8, 8).map(lambda v: v / 4.0)
    if gen.chance(draw, 60):  # outputs that follow the first tree, up to some noise
        noise = draw(st.lists(st.integers(0, 9), min_size=len(D), max_size=len(D)))
        lf = O.route(O.flatten(ts[0]), arr(D, d))
        lab = {}
        yd = []
        for i, z in enumerate(lf):
            if z not in lab:
                lab[z] = draw(out)
            yd.append(draw(out) if noise[i] == 9 else lab[z])
    else:
        yd = draw(st.lists(out, min_size=len(D), max_size=len(D)))
    XX, y, S = [], [], []
    for _ in range(draw(st.integers(*X))):
        if gen.chance(draw, inside):
            i = draw(st.integers(0, len(D) - 1))
            r, v = list(D[i]), yd[i]
            if gen.chance(draw, 35):
                r[draw(st.integers(0, d - 1))] = draw(st.integers(0, gen.G))
            if gen.chance(draw, 20):
                v = draw(out)
        else:
            r, v = draw(st.lists(st.integers(-1, gen.G + 1), min_size=d, max_size=d)), draw(out)
        XX.append(r)
        y.append(v)
        S.append(draw(gen.some(d, 80)) if sets else [])
    c = {'form': form, 'clf': clf, 'd': d, 'k': k, 'order': draw(st.sampled_from(['dfs', 'bfs'])), 'trees': ts,
         'data': D, 'yd': yd, 'X': XX, 'y': y, 'nmin': draw(st.sampled_from(nmin))}
    if sets:
        c['S'] = S
    if not clf:
        iv = []
        for v in y:
            lo = v - draw(st.integers(0, 6)) / 4.0
            iv.append([lo, lo + draw(st.integers(0, 10)) / 4.0])
        c['t'] = iv
    if unit:
        c['unit'] = draw(st.sampled_from(gen.UNIT))
    return c


class Agn(object):
    """Arrays of a case, the steps building the explainer 'a', and the reference."""

    def __init__(self, c):
        self.c, self.d, self.clf = c, c['d'], c['clf']
        flat = [gen.tree_units(c, O.flatten(t, c['order'])) for t in c['trees']]
        spec = [O.wire_tree(t) for t in flat]
        self.data, self.X = gen.units(c, arr(c['data'], c['d'])), gen.units(c, arr(c['X'], c['d']))
        self.yd, self.y = np.array(c['yd'], dtype=float), np.array(c['y'], dtype=float)
        self.n = len(self.X)
        self.cls = int(c['clf'])
        self.ref = P.Projected(flat, self.data, self.yd, c['nmin'])
        self.trees = flat
        if c['form'] == 'acx':
            self.steps = [{'op': 'new', 'id': 'a', 'kind': 'acx_stub', 'trees': spec, 'd': c['d'],
                           'k': {'classifier': bool(c['clf'])}, 'X': self.data, 'y': self.yd}]
        else:
            self.steps = [{'op': 'new', 'id': 'm', 'kind': 'sk_forest', 'trees': spec, 'd': c['d'],
                           'clf': bool(c['clf']), 'single': False},
                          {'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'), 'data': self.data,
                           'agn': c['form'] == 'agn', 'k': {}}]
        self.t = None if c['clf'] else np.array(c['t'], dtype=float).reshape(-1, 2)

    def default_t(self):
        """The interval of the stub's quantiles."""
        p = sum(t['values'][O.route(t, self.X)][:, 0] for t in self.trees) / len(self.trees)
        return np.stack([p + 4 * (0.05 - 0.5), p + 4 * (0.95 - 0.5)], axis=1)

    def same(self, i, t=None):
        """Indicator over the training rows of the row's decision."""
        if self.clf:
            return (self.yd == self.y[i]).astype(float)
        t = self.t if t is None else t
        return ((t[i, 0] <= self.yd) & (self.yd <= t[i, 1])).astype(float)

    def wide_space(self, ctx):
        """More than ten variables: the ten most important ones, or the ones some node tests. c['imp'], c['model']."""
        c = self.c
        if c['form'] == 'acx':
            self.steps[0]['importances'] = [float(v) for v in c['imp']]
            return [int(v) for v in np.argsort(-np.array(c['imp']))[:10]]
        if c['form'] == 'tree' and c['model'] == 'sk':
            for t in self.steps[0]['trees']:
                t['impurity'] = [float(c['imp'][f]) if l >= 0 else 0. for f, l in zip(t['features'], t['children_left'])]
            at = {'op': 'attr', 'obj': 'm', 'attr': 'feature_importances_'}
            imp = np.asarray(ctx.values(self.steps + [at])[2])
            o = np.argsort(-imp, kind='stable')
            if imp[o[9]] == imp[o[10]]:  # the ten most important ones are not determined
                raise Skip()
            return [int(v) for v in o[:10]]
        if c['model'] == 'dict':
            self.steps[0] = {'op': 'new', 'id': 'm', 'kind': 'dict_forest', 'trees': self.steps[0]['trees']}
        n = {}
        for t in self.trees:
            for f, l in zip(t['features'], t['children_left']):
                if l >= 0:
                    n[int(f)] = n.get(int(f), 0) + 1
        o = sorted(n, key=lambda v: -n[v])
        if len(o) > 10 and n[o[9]] == n[o[10]]:  # idem
            raise Skip()
        return o[:10]

    def run(self, ctx, steps, timeout=150):
        return ctx.values(self.steps + steps, timeout)[len(self.steps):]

    def prog(self, ctx, steps, timeout=150):
        return ctx.prog(self.steps + steps, timeout)[len(self.steps):]

    def empty(self, i, S, **k):
        return any(c.low for c in self.ref.cells(self.X[i], S, **k))

    def classify(self, ctx, S=None):
        S = self.c['S'] if S is None else S
        cs = [c for i in range(self.n) for c in self.ref.cells(self.X[i], S[i])]
        ctx.label('form:' + self.c['form'], 'clf' if self.clf else 'reg', 'nmin:%d' % self.c['nmin'])
        if any(c.cut for c in cs):
            ctx.label('minimal size reached')
        if any(c.low for c in cs):
            ctx.label('empty cell')
        # non-trivial: some cell holds some, but not all, of the training rows
        ctx.nontrivial = any(0 < c.rows.sum() < len(self.data) for c in cs)


@st.composite
def ranger_case(draw, d=(2, 5), rows=(12, 30), X=(1, 3), clf=None):
    """A forest actually grown by ranger on generated data."""
    d = draw(st.integers(*d))
    clf = draw(st.booleans()) if clf is None else clf
    D = draw(gen.rows(rows[0], rows[1], d))
    w = draw(st.lists(st.integers(-2, 2), min_size=d, max_size=d))
    noise = draw(st.lists(st.integers(0, 9), min_size=len(D), max_size=len(D)))
    sc = [sum(a * b for a, b in zip(r, w)) for r in D]
    if clf:
        cut = sorted(sc)[len(sc) // 2]
        yd = [int(s >= cut) ^ int(z == 9) for s, z in zip(sc, noise)]
        if len(set(yd)) < 2:
            yd[0] = 1 - yd[0]
    else:
        yd = [s / 2. + z / 4. for s, z in zip(sc, noise)]
    n = draw(st.integers(*X))
    idx = draw(st.lists(st.integers(0, len(D) - 1), min_size=n, max_size=n))
    c = {'form': 'ranger', 'clf': clf, 'd': d, 'data': D, 'yd': yd, 'X': [list(D[i]) for i in idx],
         'y': [yd[i] for i in idx], 'nmin': draw(st.sampled_from([1, 2, 3, 5])),
         'S': [draw(gen.some(d, 90)) for _ in idx],
         'params': {'n_estimators': draw(st.integers(2, 6)), 'max_depth': draw(st.integers(1, 5)),
                    'seed': draw(st.integers(1, 10 ** 6)), 'mtry': draw(st.integers(1, d))}}
    if not clf:
        c['t'] = [[v - 1, v + 1] for v in c['y']]
    return c


class Ranger(Agn):
    """The forest is grown by ranger; the reference reads the fitted trees."""

    def __init__(self, c, ctx):
        self.c, self.d, self.clf = c, c['d'], c['clf']
        self.data, self.X = gen.units(c, arr(c['data'], c['d'])), gen.units(c, arr(c['X'], c['d']))
        self.yd, self.y = np.array(c['yd'], dtype=float), np.array(c['y'], dtype=float)
        self.n, self.cls = len(self.X), int(c['clf'])
        self.steps = [{'op': 'new', 'id': 'a', 'kind': 'acx', 'k': dict(c['params'], classifier=bool(c['clf']))},
                      {'op': 'call', 'obj': 'a', 'm': 'fit', 'a': [self.data, self.yd], 'k': {}}]
        fs = ctx.values(self.steps + [{'op': 'forest', 'obj': 'a', 'attr': 'model'}])[2]
        self.trees = [O.from_model(f) for f in fs]
        if all(t['children_left'][0] < 0 for t in self.trees):
            raise Skip()
        self.ref = P.Projected(self.trees, self.data, self.yd, c['nmin'])
        self.t = None if c['clf'] else np.array(c['t'], dtype=float).reshape(-1, 2)
