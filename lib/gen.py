"""Hypothesis strategies. Cases are JSON-able and small, so that a failure shrinks to something readable.

A tree is nested: ['L', values] or ['S', feature, t2, left, right] where the threshold is t2/2: an even t2
lies on the integer grid of the data (a value exactly on a threshold goes left), an odd one between values.
"""
import numpy as np
from hypothesis import strategies as st

G = 4  # data values are 0..G

# Units in which a case may be handed to the library: value * scale + shift (exact in single precision).
UNITS = [(1., 0.), (2. ** -10, 0.), (2. ** -4, -100.), (1024., 0.), (.5, 7.), (2. ** -8, 5.), (1., 2. ** 20)]
UNIT = [0] * 7 + [1, 2, 3, 4, 5, 6]


def units(c, a):
    s, o = UNITS[c.get('unit', 0)]
    return a if (s, o) == (1., 0.) else np.where(np.abs(a) >= 1e10, a, a * s + o)


def tree_units(c, t):
    if c.get('unit', 0):
        t['thresholds'] = np.where(t['children_left'] >= 0, units(c, t['thresholds']), t['thresholds'])
    return t


def chance(draw, p):
    return draw(st.integers(0, 99)) < p


@st.composite
def tree(draw, d, depth, leaf, on_grid=True, full=60, lo=0, hi=2 * G - 1):
    if depth == 0 or not chance(draw, full):
        return ['L', draw(leaf)]
    f = draw(st.integers(0, d - 1))
    t2 = draw(st.integers(lo, hi))
    if not on_grid and t2 % 2 == 0:
        t2 += 1
    return ['S', f, t2,
            draw(tree(d, depth - 1, leaf, on_grid, full, lo, hi)),
            draw(tree(d, depth - 1, leaf, on_grid, full, lo, hi))]


def rows(n_lo, n_hi, d, lo=0, hi=G):
    return st.lists(st.lists(st.integers(lo, hi), min_size=d, max_size=d), min_size=n_lo, max_size=n_hi)


@st.composite
def coalitions(draw, d, p=40):
    """Disjoint groups of variables, or [[]] for none."""
    if d < 2 or not chance(draw, p):
        return [[]]
    perm = draw(st.permutations(range(d)))
    out, i = [], 0
    for _ in range(draw(st.integers(1, max(1, d // 2)))):
        g = list(perm[i:i + draw(st.sampled_from([2, 3, 2, 3, 1, 4, 5]))])
        if not g:
            break
        out.append(g)
        i += len(g)
    return out or [[]]


@st.composite
def subset(draw, d, lo=0, hi=None):
    hi = d if hi is None else min(hi, d)
    perm = list(draw(st.permutations(range(d))))
    return perm[:draw(st.integers(min(lo, hi), hi))]


@st.composite
def some(draw, d, p=88):
    """A subset; mostly neither empty nor everything."""
    if d > 1 and chance(draw, p):
        return draw(subset(d, 1, d - 1))
    return draw(subset(d))


def counts(k):
    """Class counts of a leaf of a classification tree (not all zero)."""
    return st.lists(st.integers(0, 6), min_size=k, max_size=k).map(lambda v: v if any(v) else [1] + v[1:])


def quarter(k):
    return st.lists(st.integers(-12, 12).map(lambda v: v / 4.0), min_size=k, max_size=k)


@st.composite
def forest(draw, d, n_lo=1, n_hi=3, depth=3, leaf=None, on_grid=True, full=65, split=False):
    ts = []
    for _ in range(draw(st.integers(n_lo, n_hi))):
        t = draw(tree(d, draw(st.integers(1, depth)), leaf, on_grid, full))
        ts.append(t)
    if split and all(t[0] == 'L' for t in ts):
        ts[0] = ['S', draw(st.integers(0, d - 1)), draw(st.integers(0, G - 1)) * 2 + 1, ts[0],
                 ['L', draw(leaf)]]
    return ts
