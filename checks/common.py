"""Shared by the checks: forests as cases, and the steps that build them in the worker."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from harness import Skip, Violation, close, expect_close  # noqa: F401


def arr(x, d=None):
    a = np.array(x, dtype=float)
    return a.reshape(-1, d) if d is not None else a


@st.composite
def forest_case(draw, forms, d_lo=1, d_hi=4, trees=3, depth=3, data=(2, 10), X=(1, 3), off=1, full=65):
    """A model (form: how it is handed to the library), a background data set and rows to explain.

    A row of X is, half of the time, a row of the data, possibly with one value changed: then the leaves it
    falls in hold data.
    """
    form = draw(st.sampled_from(forms))
    d = draw(st.integers(d_lo, d_hi))
    clf = form in ('sk_clf', 'dt_clf')
    if clf:
        k = draw(st.sampled_from([2, 2, 3]))
        leaf = gen.counts(k)
    elif form == 'dict':
        k = draw(st.integers(1, 3))
        leaf = gen.quarter(k)
    else:
        k = 1
        leaf = gen.quarter(1)
    n_hi = 1 if form.startswith('dt') else trees
    ts = draw(gen.forest(d, 1, n_hi, depth, leaf, full=full, split=True))
    D = draw(gen.rows(data[0], data[1], d))
    XX = []
    for _ in range(draw(st.integers(*X))):
        if gen.chance(draw, 55):
            r = list(D[draw(st.integers(0, len(D) - 1))])
            if gen.chance(draw, 40):
                r[draw(st.integers(0, d - 1))] = draw(st.integers(0, gen.G))
        else:
            r = draw(st.lists(st.integers(-off, gen.G + off), min_size=d, max_size=d))
        XX.append(r)
    return {'form': form, 'd': d, 'k': k, 'order': draw(st.sampled_from(['dfs', 'bfs'])), 'trees': ts, 'data': D,
            'X': XX, 'unit': draw(st.sampled_from(gen.UNIT))}


class Built(object):
    """The case's arrays, the reference forest, and the steps constructing the ACVTree 'a' on model 'm'."""

    def __init__(self, c, acv_k=None, data_ctor=None, acv=True):
        self.c = c
        self.d, form = c['d'], c['form']
        self.clf = form in ('sk_clf', 'dt_clf')
        flat = [gen.tree_units(c, O.flatten(t, c['order'])) for t in c['trees']]
        self.data, self.X = gen.units(c, arr(c['data'], c['d'])), gen.units(c, arr(c['X'], c['d']))
        nt = len(flat)
        self.trees = []  # as the library is meant to see them: leaf values scaled so that the sum predicts
        for t in flat:
            u = dict(t)
            v = np.array(t['values'], dtype=float)
            if self.clf:
                v = v / v.sum(axis=1, keepdims=True)
            if form in ('sk_clf', 'sk_reg'):
                v = v / nt
            u['values'] = v
            self.trees.append(u)
        spec = [O.wire_tree(t) for t in flat]
        if form.startswith('dict'):
            self.steps = [{'op': 'new', 'id': 'm', 'kind': 'dict_forest', 'trees': spec}]
        else:
            self.steps = [{'op': 'new', 'id': 'm', 'kind': 'sk_forest', 'trees': spec, 'd': c['d'], 'clf': self.clf,
                           'single': form.startswith('dt')}]
        if acv:
            self.steps.append({'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'),
                               'data': self.data if data_ctor is None else data_ctor, 'k': acv_k or {}})
        self.F = O.Forest(self.trees, c['d'], self.data, self.X)

    def run(self, ctx, steps, timeout=150):
        """Results of `steps`, run after the construction; none may raise."""
        r = ctx.values(self.steps + steps, timeout)
        return r[len(self.steps):]

    def prog(self, ctx, steps, timeout=150):
        return ctx.prog(self.steps + steps, timeout)[len(self.steps):]


def call(m, *a, **k):
    return {'op': 'call', 'obj': 'a', 'm': m, 'a': list(a), 'k': k}


def proba(which, rows):
    return {'op': 'call', 'obj': which, 'm': 'predict_proba', 'a': [rows]}


def S_arr(S):
    return np.array(S, dtype=np.int64)


def interesting(b):
    """Some tree splits, and the data do not all fall in one leaf."""
    return any(len(lv) > 1 and sum(1 for _, iD, _ in lv if iD.all(axis=1).any()) > 1 for lv in b.F.trees)
