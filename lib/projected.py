"""Reference model of the projected forest: the cell of a row given a subset, tree by tree.

A tree is walked level by level. The nodes of a level are the children reached so far. At a node that tests a
variable of S the row's side is followed and the training rows on the other side are dropped; at another node both
sides are followed; a leaf is the end of its branch. Once fewer rows than the minimal size remain, the remaining nodes
of the level are left out.
Two refinements of this rule exist in the library: the nodes of a level are visited in the order of their indices
('set') or in the order in which they were reached ('list'); and a split that would leave fewer rows than the minimal
size is applied before the level ends ('after') or not applied ('before').
"""
import numpy as np


class Cell(object):
    __slots__ = ('rows', 'box', 'low', 'splits', 'cut')


def side(t, n, x, S, cond=None, cut_S=True):
    """0: follow left, 1: follow right, None: both."""
    f, th = t['features'][n], t['thresholds'][n]
    if f in S:
        if not cut_S:
            return None
        return 0 if x[f] <= th else 1
    if cond is not None:
        if cond[f][1] <= th:
            return 0
        if cond[f][0] > th:
            return 1
    return None


def cell(t, x, S, data, nmin, levels, order='set', stop='after', cond=None, cut_S=True):
    S = set(int(s) for s in S)
    keep = np.ones(len(data), dtype=bool)
    box = np.full((data.shape[1], 2), 1e10)
    box[:, 0] = -1e10
    c = Cell()
    c.cut, c.splits = False, 0
    cl, cr, f, th = t['children_left'], t['children_right'], t['features'], t['thresholds']
    nodes, reached = [0], []
    for _ in range(levels):
        for n in (sorted(nodes) if order == 'set' else nodes):
            now = keep
            if cl[n] >= 0:
                s = side(t, n, x, S, cond, cut_S)
                for k, ch in ((0, cl[n]), (1, cr[n])):
                    if s in (None, k) and ch not in reached:
                        reached.append(ch)
                if s == 0:
                    now = keep & (data[:, f[n]] <= th[n])
                    box[f[n], 1] = min(box[f[n], 1], th[n])
                elif s == 1:
                    now = keep & (data[:, f[n]] > th[n])
                    box[f[n], 0] = max(box[f[n], 0], th[n])
                if s is not None:
                    c.splits += 1
            elif stop == 'before':
                continue
            small = now.sum() < nmin
            if not (small and stop == 'before'):
                keep = now
            if small:
                c.cut = True
                break
        nodes = list(reached)
    c.rows, c.box, c.low = keep, box, keep.sum() == 0
    return c


class Projected(object):
    def __init__(self, trees, data, y_data, nmin):
        self.trees, self.data, self.nmin = trees, np.asarray(data, dtype=float), nmin
        self.y = np.asarray(y_data, dtype=float)
        self.levels = max(t['depth'] for t in trees)
        self.memo = {}

    def cells(self, x, S, order='set', stop='after', cond=None, cut_S=True):
        key = (tuple(x), tuple(sorted(S)), order, stop, None if cond is None else np.asarray(cond).tobytes(), cut_S)
        if key not in self.memo:
            self.memo[key] = [cell(t, x, S, self.data, self.nmin, self.levels, order, stop, cond, cut_S)
                              for t in self.trees]
        return self.memo[key]

    def weights(self, x, S, **k):
        w = np.zeros(len(self.data))
        for c in self.cells(x, S, **k):
            if c.rows.any():
                w += c.rows / (c.rows.sum() * float(len(self.trees)))
        return w

    def stat(self, x, S, g, **k):
        """Average over the trees of the mean of g over the cell (0 where the cell is empty)."""
        return float(self.weights(x, S, **k).dot(g))

    def box(self, x, S, **k):
        bs = np.array([c.box for c in self.cells(x, S, **k)])
        return np.stack([bs[:, :, 0].max(axis=0), bs[:, :, 1].min(axis=0)], axis=1)


def percentile(a, w, q, slack=0.):
    """Weighted percentile of the points with positive weight (each at the middle of its weight), linear between.

    Where outputs tie, their order (which weight comes first or last) is not determined: the lowest and the highest
    value over these orders, at q - slack and q + slack.
    """
    a, w = np.asarray(a, dtype=float), np.asarray(w, dtype=float)
    a, w = a[w > 0], w[w > 0]
    v = np.unique(a)
    tot = np.array([w[a == x].sum() for x in v])
    small, large = (np.array([f(w[a == x]) for x in v]) for f in (np.min, np.max))
    end = np.cumsum(tot)
    start = end - tot

    def at(first, last, q):
        p = 100. / end[-1] * np.stack([start + first / 2, end - last / 2], axis=1).ravel()
        return float(np.interp(q, p, np.repeat(v, 2)))
    return at(large, small, q - slack), at(small, large, q + slack)
