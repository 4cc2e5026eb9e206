"""Runs under PyPy: imports acv_explainers from /repo and executes programs of API calls.

A program is a list of steps, run against a fresh environment (`env`) for every case:
  {'op': 'new', 'id': name, 'kind': ..., ...}     construct an object
  {'op': 'call', 'obj': name, 'm': method, 'a': [...], 'k': {...}, 'id': result name}
  {'op': 'fn', 'f': 'module:function', 'a': [...], 'k': {...}}
Arguments of the form ('__ref__', name) are replaced by env[name]; ('__refi__', name, i) by env[name][i].
Every step yields {'ok': value} or {'exc': (type, message, traceback)} plus 'mut' when an argument
array was modified by the call. After a failed step the remaining steps still run.
"""
import copy
import importlib
import io
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings('ignore')
_out = os.fdopen(os.dup(1), 'wb')
_in = os.fdopen(os.dup(0), 'rb')
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(_null), 'wb'), write_through=True)
os.dup2(os.open(os.devnull, os.O_RDONLY), 0)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wire  # noqa: E402
import zoo  # noqa: E402
import numpy as np  # noqa: E402

np.seterr(all='ignore')

try:
    import tqdm as _tqdm  # the progress bars only cost time here
    class _Quiet(_tqdm.tqdm):
        def __init__(self, *a, **k):
            k['disable'] = True
            super(_Quiet, self).__init__(*a, **k)
    _tqdm.tqdm = _Quiet
except Exception:
    pass

import acv_explainers  # noqa: E402
from acv_explainers import ACVTree, ACVTreeAgnostic, ACXplainer  # noqa: E402

assert os.path.realpath(acv_explainers.__file__).startswith(os.path.realpath(os.environ['VERIF_REPO']) + '/')


def sk_tree(t, n_features, n_classes):
    """A sklearn Tree with exactly the given nodes (built through its pickling protocol)."""
    from sklearn.tree._tree import Tree
    n = len(t['children_left'])
    ref = Tree(n_features, np.array([n_classes], dtype=np.intp), 1)
    state = ref.__getstate__()
    dt = state['nodes'].dtype if 'nodes' in state else None
    nodes = np.zeros(n, dtype=dt)
    leaf = np.array(t['children_left']) < 0
    nodes['left_child'] = t['children_left']
    nodes['right_child'] = t['children_right']
    nodes['feature'] = np.where(leaf, -2, t['features'])
    nodes['threshold'] = np.where(leaf, -2.0, t['thresholds'])
    nodes['impurity'] = t.get('impurity', 0.)
    w = np.maximum(np.asarray(t['node_sample_weight'], dtype=float), 1)
    nodes['n_node_samples'] = w.astype(int)
    nodes['weighted_n_node_samples'] = w
    vals = np.asarray(t['values'], dtype=np.float64).reshape(n, 1, -1)
    ref.__setstate__({'max_depth': int(t['depth']), 'node_count': n, 'nodes': nodes,
                      'values': np.ascontiguousarray(vals)})
    return ref


def sk_forest(spec, n_features, classifier, single=False):
    from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    k = np.asarray(spec[0]['values']).shape[1]
    ests = []
    for t in spec:
        e = DecisionTreeClassifier() if classifier else DecisionTreeRegressor()
        e.tree_ = sk_tree(t, n_features, k if classifier else 1)
        e.n_outputs_ = 1
        e.n_features_in_ = n_features
        e.max_features_ = n_features
        if classifier:
            e.classes_ = np.arange(k)
            e.n_classes_ = k
        ests.append(e)
    if single:
        return ests[0]
    f = RandomForestClassifier(n_estimators=len(ests)) if classifier else \
        RandomForestRegressor(n_estimators=len(ests))
    f.estimators_ = ests
    f.n_outputs_ = 1
    f.n_features_in_ = n_features
    if classifier:
        f.classes_ = np.arange(k)
        f.n_classes_ = k
    return f


def dict_forest(spec):
    keys = ('children_left', 'children_right', 'children_default', 'features', 'thresholds', 'values',
            'node_sample_weight')
    return {'trees': [{k: np.array(t[k], dtype=(np.int32 if k.startswith('children') or k == 'features'
                                                 else np.float64)) for k in keys} for t in spec]}


class FnModel:
    """An arbitrary black-box model: a sum of axis-aligned steps, given as a forest spec."""

    def __init__(self, spec, clf):
        self.spec, self.clf = spec, clf

    def _raw(self, X):
        X = np.asarray(X, dtype=float)
        out = 0.
        for t in self.spec:
            cl, cr = np.asarray(t['children_left']), np.asarray(t['children_right'])
            f, th = np.asarray(t['features']), np.asarray(t['thresholds'])
            v = np.asarray(t['values'], dtype=float)
            node = np.zeros(len(X), dtype=int)
            for _ in range(int(t['depth']) + 1):
                inner = cl[node] >= 0
                go = X[np.arange(len(X)), np.where(inner, f[node], 0)] <= th[node]
                node = np.where(inner, np.where(go, cl[node], cr[node]), node)
            out = out + v[node] / len(self.spec)
        return out

    def predict_proba(self, X):
        return self._raw(X)

    def predict(self, X):
        r = self._raw(X)
        return np.argmax(r, axis=1).astype(float) if self.clf else r[:, 0]


def acx_stub(s, env):
    """An ACXplainer whose ranger forest holds exactly the given trees (fit does not grow others)."""
    from skranger.ensemble import RangerForestClassifier, RangerForestRegressor
    base = RangerForestClassifier if s['k']['classifier'] else RangerForestRegressor
    k = np.asarray(s['trees'][0]['values']).shape[1]

    class Est:
        pass

    ests = []
    for t in s['trees']:
        e = Est()
        e.tree_ = sk_tree(t, s['d'], k)
        ests.append(e)

    class Stub(base):
        estimators_ = ests

        def fit(self, X, y, **kw):
            self.n_features_in_ = X.shape[1]
            self.ranger_forest_ = {}
            return self

        feature_importances_ = s.get('importances')

        def predict(self, X):
            return FnModel(s['trees'], bool(s['k']['classifier'])).predict(X)

        def predict_proba(self, X):
            return FnModel(s['trees'], True)._raw(X)

        def predict_quantiles(self, X, quantiles):
            p = FnModel(s['trees'], False).predict(X)
            return np.stack([p + 4 * (q - 0.5) for q in quantiles], axis=1)

    ax = ACXplainer(**s['k'])
    ax.model = Stub()
    ax.fit(np.asarray(s['X'], dtype=float), np.asarray(s['y'], dtype=float))
    return ax


class Linear:
    """A cheap black-box regressor."""

    def __init__(self, w):
        self.w = np.asarray(w, dtype=float)

    def predict(self, X):
        return np.asarray(X, dtype=float).dot(self.w)


def fit_model(s):
    X, y = np.asarray(s['X'], dtype=float), np.asarray(s['y'])
    mod, cls = s['cls'].rsplit('.', 1)
    m = getattr(importlib.import_module(mod), cls)(**s.get('params', {}))
    m.fit(X, y)
    return m


def new(s, env):
    kind = s['kind']
    if kind == 'sk_forest':
        return sk_forest(s['trees'], s['d'], s['clf'], s.get('single', False))
    if kind == 'dict_forest':
        return dict_forest(s['trees'])
    if kind == 'raw_dict':
        return {'trees': s['trees']}
    if kind == 'fn_model':
        return FnModel(s['trees'], s['clf'])
    if kind == 'zoo':
        return zoo.Zoo(s)
    if kind == 'linear':
        return Linear(s['w'])
    if kind == 'fit':
        return fit_model(s)
    if kind == 'acvtree':
        cls = ACVTreeAgnostic if s.get('agn') else ACVTree
        return cls(res(s['model'], env), res(s['data'], env), **res(s.get('k', {}), env))
    if kind == 'acx_stub':
        return acx_stub(s, env)
    if kind == 'acx':
        return ACXplainer(**s['k'])
    if kind == 'extend':  # extend_partition works in place
        from acv_explainers.utils import extend_partition
        import types
        rules, boxes, sdp, pi, S = res(s['a'], env)
        rules = rules.copy()
        extend_partition(rules, boxes, sdp, pi=pi, S=S)
        return types.SimpleNamespace(rules=rules)
    if kind == 'obj':
        mod, cls = s['cls'].split(':')
        return getattr(importlib.import_module(mod), cls)(*res(s.get('a', []), env), **res(s.get('k', {}), env))
    raise ValueError('unknown kind ' + kind)


def formed(kind, a):
    """The same values in another form."""
    if kind == 'F':
        return np.asfortranarray(a).copy(order='F')
    if kind == 'strided':
        b = np.full(tuple(2 * k + 1 for k in a.shape), 77., dtype=a.dtype)
        b[tuple(slice(1, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(1, None, 2) for _ in a.shape)]
    if kind == 'reversed':
        r = (slice(None, None, -1),) * a.ndim
        return a[r].copy()[r]
    if kind == 'cut':  # the first columns of a wider array
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 77., dtype=a.dtype)
        b[..., :a.shape[-1]] = a
        return b[..., :a.shape[-1]]
    if kind == 'float32':
        return a.astype(np.float32)
    if kind == 'int':
        return a.astype(np.int64)
    if kind == 'list':
        return a.tolist()
    if kind == 'frame':
        import pandas as pd
        return pd.DataFrame(a) if a.ndim == 2 else pd.Series(a)
    if kind == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    raise ValueError(kind)


def res(a, env):
    if isinstance(a, tuple) and len(a) >= 2 and a[0] == '__ref__':
        return env[a[1]]
    if isinstance(a, tuple) and len(a) == 3 and a[0] == '__refi__':
        return env[a[1]][a[2]]
    if isinstance(a, tuple) and len(a) == 3 and a[0] == '__form__':
        return formed(a[1], a[2])
    if isinstance(a, tuple) and len(a) == 2 and a[0] == '__static__':
        return getattr(ACXplainer, a[1])
    if isinstance(a, tuple):
        return tuple(res(x, env) for x in a)
    if isinstance(a, list):
        return [res(x, env) for x in a]
    if isinstance(a, dict):
        return {k: res(v, env) for k, v in a.items()}
    return a


def snap(a):
    out = []
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, np.ndarray) and x.dtype != object:
            out.append((x, x.copy()))
        elif isinstance(x, (list, tuple)):
            if isinstance(x, list):
                out.append((x, list(x)))
            st.extend(x)
        elif isinstance(x, dict):
            st.extend(x.values())
    return out


def same(x, c):
    if isinstance(x, np.ndarray):
        return x.shape == c.shape and (x.tobytes() == c.tobytes())
    return len(x) == len(c) and all(p is q for p, q in zip(x, c))


def forest_of(trees):
    """The nodes of fitted sklearn / skranger trees, through the public tree_ attributes."""
    out = []
    for e in trees:
        t = e.tree_
        v = t.value.reshape(t.value.shape[0], -1)
        out.append({'children_left': np.array(t.children_left), 'children_right': np.array(t.children_right),
                    'features': np.array(t.feature), 'thresholds': np.array(t.threshold, dtype=float),
                    'values': np.array(v, dtype=float)})
    return out


def step(s, env):
    op = s['op']
    if op == 'new':
        v = new(s, env)
        env[s['id']] = v
        return None
    if op == 'seed':
        np.random.seed(s['n'])
        random.seed(s['n'])
        return None
    if op == 'forest':
        m = env[s['obj']]
        m = getattr(m, s['attr']) if s.get('attr') else m
        ests = m.estimators_
        if isinstance(ests, np.ndarray):
            ests = list(ests.ravel())
        return forest_of(ests)
    if op == 'attr':
        v = env[s['obj']]
        for p in s['attr'].split('.'):
            v = getattr(v, p)
        if s.get('id'):
            env[s['id']] = v
        return v
    if op == 'hasattr':
        return hasattr(env[s['obj']], s['attr'])
    if op == 'setattr':
        setattr(env[s['obj']], s['attr'], res(s['v'], env))
        return None
    if op == 'anneal':
        from acv_explainers.utils import rules_by_annealing, volume_rectangles
        return rules_by_annealing(volume_rectangles, *res(s['a'], env), **s['k'])
    a, k = res(s.get('a', []), env), res(s.get('k', {}), env)
    sn = snap((list(a), k))
    if op == 'call':
        f = getattr(env[s['obj']], s['m'])
    elif op == 'fn':
        mod, fn = s['f'].split(':')
        f = importlib.import_module(mod)
        for p in fn.split('.'):
            f = getattr(f, p)
    else:
        raise ValueError('unknown op ' + op)
    r = f(*a, **k)
    if s.get('id'):
        env[s['id']] = r
    # the first two snapshots are the argument containers made here
    mut = [i for i, (x, c) in enumerate(sn) if not same(x, c)]
    if s.get('wreck'):  # the caller overwrites what it was given: later answers must not depend on it
        out = copy.deepcopy(r)
        wreck(r, [x for x, _ in sn])
        r = out
    return r if not mut else Mut(r)


def wreck(r, keep):
    if any(r is x for x in keep):
        return
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            for x in r.ravel():
                wreck(x, keep)
        elif r.flags.writeable and not any(isinstance(x, np.ndarray) and np.may_share_memory(r, x) for x in keep):
            r.fill(77)
    elif isinstance(r, (list, tuple)):
        for x in r:
            wreck(x, keep)
        if isinstance(r, list):
            r.append('wrecked')


class Mut(object):
    def __init__(self, r):
        self.r = r


def run(prog):
    env, out = {}, []
    zoo.clear()
    for s in prog:
        try:
            r = step(s, env)
            if isinstance(r, Mut):
                out.append({'ok': r.r, 'mut': True})
            elif s.get('discard'):
                out.append({'ok': None})
            else:
                out.append({'ok': r})
        except Exception as e:
            out.append({'exc': (type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])})
    return out


def main():
    wire.send(_out, {'ready': True, 'pid': os.getpid()})
    while True:
        try:
            prog = wire.recv(_in)
        except EOFError:
            return
        wire.send(_out, run(prog))


if __name__ == '__main__':
    main()
