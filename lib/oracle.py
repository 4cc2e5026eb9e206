"""Independent reference models, written from the definitions (numpy, no code shared with /repo)."""
import itertools
from math import comb, factorial

import numpy as np


# ---------------------------------------------------------------- trees
def flatten(t, order='dfs', k=None):
    """Nested tree -> node arrays (parents before children)."""
    nodes = []

    def depth(n):
        return 0 if n[0] == 'L' else 1 + max(depth(n[3]), depth(n[4]))

    def nleaf(n):
        return 1 if n[0] == 'L' else nleaf(n[3]) + nleaf(n[4])

    seq = []  # (node, parent index, side)
    if order == 'dfs':
        def rec(n, par, side):
            i = len(seq)
            seq.append((n, par, side))
            if n[0] == 'S':
                rec(n[3], i, 0)
                rec(n[4], i, 1)
        rec(t, -1, 0)
    else:
        q = [(t, -1, 0)]
        while q:
            n, par, side = q.pop(0)
            i = len(seq)
            seq.append((n, par, side))
            if n[0] == 'S':
                q.append((n[3], i, 0))
                q.append((n[4], i, 1))
    m = len(seq)
    cl, cr = -np.ones(m, dtype=int), -np.ones(m, dtype=int)
    f, th = -2 * np.ones(m, dtype=int), -2. * np.ones(m)
    vals = [None] * m
    w = np.zeros(m)
    for i, (n, par, side) in enumerate(seq):
        if par >= 0:
            (cl if side == 0 else cr)[par] = i
        if n[0] == 'S':
            f[i], th[i] = n[1], n[2] / 2.0
        else:
            vals[i] = np.asarray(n[1], dtype=float)
        w[i] = nleaf(n)
    for i in range(m - 1, -1, -1):  # an inner node carries the sum of its leaves (as class counts do)
        if vals[i] is None:
            vals[i] = vals[cl[i]] + vals[cr[i]]
    return {'children_left': cl, 'children_right': cr, 'children_default': cl.copy(), 'features': f,
            'thresholds': th, 'values': np.array(vals), 'node_sample_weight': w, 'depth': depth(t)}


def wire_tree(t):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in t.items()}


def from_model(f):
    """Node arrays read from a fitted model: leaves have no children; ranger codes its first variable at inner nodes
    like the mark of a leaf."""
    cl, cr = np.asarray(f['children_left']).astype(int), np.asarray(f['children_right']).astype(int)
    ft = np.asarray(f['features']).astype(int)
    ft = np.where((ft < 0) & (cl >= 0), 0, ft)

    def depth(n):
        return 0 if cl[n] < 0 else 1 + max(depth(cl[n]), depth(cr[n]))
    return {'children_left': cl, 'children_right': cr, 'features': ft,
            'thresholds': np.asarray(f['thresholds'], dtype=float), 'values': np.asarray(f['values'], dtype=float),
            'depth': depth(0)}


def leaves(t, d):
    """[(box (d,2) as (low, up], value)] of a flattened tree."""
    out = []

    def rec(i, box):
        if t['children_left'][i] < 0:
            out.append((box, np.asarray(t['values'][i], dtype=float)))
            return
        f, th = t['features'][i], t['thresholds'][i]
        a, b = box.copy(), box.copy()
        a[f, 1] = min(a[f, 1], th)
        b[f, 0] = max(b[f, 0], th)
        rec(t['children_left'][i], a)
        rec(t['children_right'][i], b)
    rec(0, np.array([[-np.inf, np.inf]] * d))
    return out


def route(t, X):
    X = np.asarray(X, dtype=float)
    out = np.zeros(len(X), dtype=int)
    for i, x in enumerate(X):
        n = 0
        while t['children_left'][n] >= 0:
            n = t['children_left'][n] if x[t['features'][n]] <= t['thresholds'][n] else t['children_right'][n]
        out[i] = n
    return out


def predict(trees, X):
    return sum(np.asarray(t['values'], dtype=float)[route(t, X)] for t in trees)


def inside(box, X):
    """(n, d) booleans: coordinate within (low, up]."""
    return (X > box[:, 0]) & (X <= box[:, 1])


class Forest(object):
    """Leaf representation of a forest: per tree, leaf values and coordinate-wise membership of points."""

    def __init__(self, trees, d, data, X):
        self.d, self.N, self.n = d, len(data), len(X)
        self.data, self.X = np.asarray(data, dtype=float), np.asarray(X, dtype=float)
        self.k = len(np.atleast_1d(trees[0]['values'][0]))
        self.trees = []
        for t in trees:
            lv = leaves(t, d)
            self.trees.append([(v, inside(b, self.data), inside(b, self.X)) for b, v in lv])

    def masks(self, S):
        """per tree, per leaf: (value, x in leaf on S (n), data in leaf (N), data in leaf on S (N))"""
        S = list(S)
        for lv in self.trees:
            yield [(v, iX[:, S].all(axis=1), iD.all(axis=1), iD[:, S].all(axis=1)) for v, iD, iX in lv]


def groups(d, C):
    """Players: lists of variables; ungrouped ones first, in index order, then the groups in order."""
    if C == [[]] or C == []:
        return [[i] for i in range(d)]
    used = set(v for c in C for v in c)
    return [[i] for i in range(d) if i not in used] + [list(c) for c in C]


def shapley(players, v, d, shape):
    """Exact Shapley values of v (function of a frozenset of variables); each member of a group gets the
    group's value."""
    m = len(players)
    cache = {}

    def val(idx):
        key = frozenset(idx)
        if key not in cache:
            cache[key] = v(frozenset(x for i in key for x in players[i]))
        return cache[key]
    phi = np.zeros(shape)
    for i in range(m):
        rest = [j for j in range(m) if j != i]
        tot = 0.
        for r in range(m):
            w = 1. / (m * comb(m - 1, r))
            for S in itertools.combinations(rest, r):
                tot = tot + w * (val(S + (i,)) - val(S))
        for a in players[i]:
            phi[:, a] = tot
    return phi


# ---------------------------------------------------------------- leaf estimators of E[f | X_S = x_S]
def exp_leaf(F, S):
    """Sum over the leaves compatible with x_S of value * P(leaf | leaf projected on S); (n, k)."""
    out = np.zeros((F.n, F.k))
    for tree in F.masks(S):
        for v, xin, din, dS in tree:
            c = dS.sum()
            if c:
                out += np.outer(xin, v) * (din.sum() / c)
    return out


def exp_leaf_normalized(F, S):
    out = np.zeros((F.n, F.k))
    for tree in F.masks(S):
        num, z = np.zeros((F.n, F.k)), np.zeros(F.n)
        for v, xin, din, dS in tree:
            c = dS.sum()
            if c:
                p = din.sum() / c
                num += np.outer(xin, v) * p
                z += xin * p
        ok = z > 0
        num[ok] /= z[ok, None]
        num[~ok] = 0
        out += num
    return out


def exp_discrete(F, S):
    """Average of the forest over the data rows equal to x on S; 0 when there is none."""
    S = list(S)
    out = np.zeros((F.n, F.k))
    fd = np.zeros((F.N, F.k))
    for tree in F.trees:
        for v, iD, _ in tree:
            fd += np.outer(iD.all(axis=1), v)
    for i in range(F.n):
        m = (F.data[:, S] == F.X[i, S]).all(axis=1)
        if m.any():
            out[i] = fd[m].mean(axis=0)
    return out


# ---------------------------------------------------------------- Shapley values
def shap_leaf(F, C):
    return shapley(groups(F.d, C), lambda S: exp_leaf(F, S), F.d, (F.n, F.d, F.k))


def path_vars(t, d):
    """Per leaf (in the order of leaves()): the variables tested on its path."""
    out = []

    def rec(i, vs):
        if t['children_left'][i] < 0:
            out.append(frozenset(vs))
            return
        rec(t['children_left'][i], vs | {int(t['features'][i])})
        rec(t['children_right'][i], vs | {int(t['features'][i])})
    rec(0, frozenset())
    return out


def shap_normalized(F, trees, C):
    """Sum over leaves of the Shapley values of the leaf's own game: players are the variables (groups) on the
    leaf's path; the leaf's probability is normalized over the leaves compatible with the coalition."""
    out = np.zeros((F.n, F.d, F.k))
    gs = groups(F.d, C)
    for lv, t in zip(F.trees, trees):
        pv = path_vars(t, F.d)
        for (v, iD, iX), vs in zip(lv, pv):
            players = [g for g in gs if set(g) & vs]
            lm = iD.all(axis=1).sum()

            def val(T):
                if not T:
                    return np.outer(np.ones(F.n), v) * (lm / F.N)
                S = sorted(T)
                ls = iD[:, S].all(axis=1).sum()
                if ls == 0:
                    return np.zeros((F.n, F.k))
                z = np.zeros(F.n)
                for _, jD, jX in lv:
                    l2 = jD[:, S].all(axis=1).sum()
                    if l2:
                        z += jX[:, S].all(axis=1) * (jD.all(axis=1).sum() / l2)
                p = iX[:, S].all(axis=1) * (lm / ls)
                p = np.where(z > 0, p / np.where(z > 0, z, 1), 0)
                return np.outer(p, v)
            out += shapley(players, val, F.d, (F.n, F.d, F.k))
    return out


# ---------------------------------------------------------------- same decision probabilities
EPS = 1e-9


def ratio(num, den, parts, clip):
    """num/den; None (not judged) when den is a rounding error away from 0; 0 when every term is 0 (parts: sums of the
    absolute values of the terms: terms that cancel here may leave a rounding error elsewhere)."""
    if abs(den) < EPS:
        return 0. if all(p == 0 for p in parts) else None
    r = num / den
    return min(1., max(0., r)) if clip else r


def sdp_clf(F, S, fx, fd, mode, edges=True, clip=None):
    """mode: 'leaf' (normalized within each tree), 'leaf_plain', 'discrete'. fx, fd: decisions at the rows, data.
    edges: the conventions for the empty and the full set apply."""
    S = list(S)
    if edges and len(S) == F.d:
        return [1.] * F.n
    if edges and not S:
        return [0.] * F.n
    clip = mode != 'leaf' if clip is None else clip
    out = []
    for i in range(F.n):
        keep = [np.ones(F.N, bool), fd == fx[i], fd != fx[i]]
        eq = (F.data[:, S] == F.X[i, S]).all(axis=1)
        tot, mag = np.zeros(3), np.zeros(3)
        for tree in F.masks(S):
            num, z = np.zeros(3), np.zeros(3)
            for v, xin, din, dS in tree:
                if not xin[i]:
                    continue
                for j, kp in enumerate(keep):
                    a, c = ((din & eq & kp).sum(), (eq & kp).sum()) if mode == 'discrete' else \
                        ((din & kp).sum(), (dS & kp).sum())
                    if c:
                        num[j] += a / c * v[fx[i]]
                        mag[j] += a / c * abs(v[fx[i]])
                        z[j] += a / c
            if mode == 'leaf':
                num = np.where(z > 0, num / np.where(z > 0, z, 1), 0)
            tot += num
        out.append(ratio(tot[0] - tot[2], tot[1] - tot[2], mag, clip))
    return out


def sdp_reg(F, S, fx, fd, t, mode):
    """(other - all) / (other - same) of the estimates of E[(f - f(x))^2 | x_S], f(x)^2 left out (it cancels)."""
    S = list(S)
    out = []
    for i in range(F.n):
        dist = (fd - fx[i]) ** 2
        keep = [np.ones(F.N, bool), dist > t, dist <= t]
        eq = (F.data[:, S] == F.X[i, S]).all(axis=1)
        tot, mag = np.zeros(3), np.zeros(3)
        trees = [[(v[0], din, dS) for v, xin, din, dS in tree if xin[i]] for tree in F.masks(S)]

        def share(din, dS, kp):
            if mode == 'discrete':
                a, c = (din & eq & kp).sum(), (eq & kp).sum()
            else:
                a, c = (din & kp).sum(), (dS & kp).sum()
            return a / c if c else 0.
        for j, kp in enumerate(keep):
            for b, tb in enumerate(trees):
                p = [share(din, dS, kp) for v, din, dS in tb]
                z = sum(p) if mode == 'leaf' else 1.
                if not z:
                    continue
                for (v, din, dS), pb in zip(tb, p):
                    tot[j] += pb / z * (v * v - 2 * fx[i] * v)
                    mag[j] += pb / z * (v * v + abs(2 * fx[i] * v))
                    for l, tl in enumerate(trees):
                        if l == b:
                            continue
                        q = [share(din & dl, dS & sl, kp) for vl, dl, sl in tl]
                        w = sum(a * vl for a, (vl, _, _) in zip(q, tl)) * v
                        mag[j] += sum(a * abs(vl) for a, (vl, _, _) in zip(q, tl)) * abs(v)
                        if mode == 'leaf':
                            zq = sum(q)
                            tot[j] += pb / z * w / zq if zq else 0
                        else:
                            tot[j] += w
        out.append((ratio(tot[1] - tot[0], tot[1] - tot[2], mag, mode != 'leaf'), tot))
    return out
