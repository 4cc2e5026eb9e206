"""C01: a loaded tree model represents exactly the model it was built from."""
import numpy as np
from hypothesis import strategies as st

import gen
import oracle as O
from checks.common import arr, close
from harness import Facet, Skip, Violation

PROP = 'C01'
TREE_ATTRS = ['children_left', 'children_right', 'children_default', 'features', 'thresholds', 'values', 'leaves_nb',
              'leaf_idx_trees', 'partition_leaves_trees', 'node_idx_trees', 'max_var', 'num_outputs', 'base_offset']


# ---------------------------------------------------------------- cases
@st.composite
def table(draw, d, n_lo, n_hi, nan=0):
    """Training data: grid integers, later scaled; and rows of half-grid values with neighbours one float away."""
    D = draw(gen.rows(n_lo, n_hi, d))
    Z = draw(st.lists(st.lists(st.tuples(st.integers(-2, 2 * gen.G + 2), st.sampled_from([0, 0, -1, 1])).map(list),
                               min_size=d, max_size=d), min_size=2, max_size=6))
    return {'d': d, 'D': D, 'Z': Z, 'scale': draw(st.sampled_from([1., 1., 1., 0.1, 1000.])),
            'shift': draw(st.sampled_from([0., 0., -2.])), 'seed': draw(st.integers(0, 10 ** 6))}


def grid(c, v2):
    return np.float32(c['scale'] * v2 / 2. + c['shift'])


def data_of(c):
    return np.array([[grid(c, 2 * v) for v in r] for r in c['D']], dtype=float).reshape(-1, c['d'])


def rows_of(c):
    out = []
    for r in c['Z']:
        x = []
        for v2, e in r:
            v = grid(c, v2)
            x.append(v if e == 0 else np.nextafter(v, np.float32(np.inf if e > 0 else -np.inf)))
        out.append(x)
    return np.array(out, dtype=float).reshape(-1, c['d'])


@st.composite
def outputs(draw, c, clf, k=2):
    n = len(c['D'])
    if clf:
        y = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
        for j in range(k):  # every class is met, and twice when there is room
            y[j] = j
            if 2 * k <= n:
                y[k + j] = j
        return y
    w = draw(st.lists(st.integers(-2, 2), min_size=c['d'], max_size=c['d']))
    z = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))
    return [sum(a * b for a, b in zip(r, w)) + e / 4. for r, e in zip(c['D'], z)]


SK = {
    'rf_clf': ('sklearn.ensemble.RandomForestClassifier', 'proba'),
    'et_clf': ('sklearn.ensemble.ExtraTreesClassifier', 'proba'),
    'dt_clf': ('sklearn.tree.DecisionTreeClassifier', 'proba'),
    'rf_reg': ('sklearn.ensemble.RandomForestRegressor', 'predict'),
    'et_reg': ('sklearn.ensemble.ExtraTreesRegressor', 'predict'),
    'dt_reg': ('sklearn.tree.DecisionTreeRegressor', 'predict'),
    'gb_reg': ('sklearn.ensemble.GradientBoostingRegressor', 'predict'),
    'gb_clf': ('sklearn.ensemble.GradientBoostingClassifier', 'decision'),
    'hgb_reg': ('sklearn.ensemble.HistGradientBoostingRegressor', 'predict'),
    'hgb_clf': ('sklearn.ensemble.HistGradientBoostingClassifier', 'decision'),
    'iso': ('sklearn.ensemble.IsolationForest', 'score'),
}
ALIAS = {'rf_clf': ['imblearn.ensemble._forest.BalancedRandomForestClassifier'],
         'rf_reg': ['skopt.learning.forest.RandomForestRegressor'],
         'et_reg': ['skopt.learning.forest.ExtraTreesRegressor'],
         'iso': ['pyod.models.iforest.IForest']}


@st.composite
def sk_case(draw, kinds=tuple(SK)):
    kind = draw(st.sampled_from(kinds))
    c = draw(table(draw(st.integers(1, 5)), 8, 30))
    clf = kind.endswith('clf')
    k = draw(st.sampled_from([2, 2, 3])) if clf and kind not in ('gb_clf', 'hgb_clf') else 2
    c['y'] = draw(outputs(c, clf, k))
    if clf and gen.chance(draw, 20):
        c['y'] = [3 + 4 * v for v in c['y']]
    n_est = draw(st.integers(1, 5))
    rs = draw(st.integers(0, 10 ** 6))
    w = None
    if kind.startswith('hgb'):
        p = {'max_iter': n_est, 'min_samples_leaf': draw(st.integers(1, 4)), 'max_leaf_nodes': draw(st.integers(2, 12)),
             'learning_rate': draw(st.sampled_from([.1, 1.])), 'random_state': rs, 'early_stopping': False}
        if kind == 'hgb_reg':
            p['loss'] = draw(st.sampled_from(['squared_error', 'absolute_error']))
    elif kind == 'iso':
        p = {'n_estimators': n_est, 'max_samples': draw(st.integers(3, len(c['D']))), 'random_state': rs,
             'max_features': draw(st.integers(1, c['d'])), 'bootstrap': draw(st.booleans())}
    else:
        p = {'max_depth': draw(st.sampled_from([1, 2, 3, 5])), 'random_state': rs,
             'min_samples_leaf': draw(st.sampled_from([1, 1, 3]))}
        if gen.chance(draw, 30):
            p['max_leaf_nodes'] = draw(st.integers(2, 8))
            if gen.chance(draw, 50):
                p['max_depth'] = None
        if not kind.startswith('dt'):
            p['n_estimators'] = n_est
        if kind == 'gb_reg':
            p['loss'] = draw(st.sampled_from(['squared_error', 'absolute_error', 'huber', 'quantile']))
        if kind == 'gb_clf':
            p['loss'] = draw(st.sampled_from(['log_loss', 'exponential']))
        if kind.startswith('gb'):
            p['learning_rate'] = draw(st.sampled_from([.1, .5, 1.]))
            p['subsample'] = draw(st.sampled_from([1., .6]))
        else:
            p['max_features'] = draw(st.integers(1, c['d']))
            if kind.startswith('rf') or kind.startswith('et'):
                p['bootstrap'] = draw(st.booleans())
        if gen.chance(draw, 25):
            w = draw(st.lists(st.sampled_from([.5, 1., 2.]), min_size=len(c['D']), max_size=len(c['D'])))
    alias = draw(st.sampled_from(ALIAS[kind])) if kind in ALIAS and gen.chance(draw, 20) else None
    c.update({'kind': kind, 'params': p, 'w': w, 'alias': alias})
    return c


@st.composite
def ranger_case(draw):
    c = draw(table(draw(st.integers(1, 5)), 8, 30))
    c['scale'] = 1.
    c['y'] = draw(outputs(c, True, draw(st.sampled_from([2, 2, 3]))))
    c['kind'] = 'ranger'
    c['params'] = {'n_estimators': draw(st.integers(1, 5)), 'max_depth': draw(st.integers(1, 5)),
                   'seed': draw(st.integers(1, 10 ** 6)), 'mtry': draw(st.integers(1, c['d']))}
    return c


REG_OBJ = ['reg:squarederror', 'reg:squarederror', 'reg:pseudohubererror', 'reg:squaredlogerror', 'count:poisson',
           'reg:gamma', 'reg:tweedie', 'reg:logistic']
BOOST_OBJ = REG_OBJ + ['binary:logistic', 'binary:logitraw', 'binary:hinge', 'survival:cox', 'survival:aft',
                       'multi:softmax', 'multi:softprob', 'rank:pairwise']


@st.composite
def xgb_case(draw, dump=False, nan=False):
    c = draw(table(draw(st.integers(1, 5)), 10, 40))
    n = len(c['D'])
    cls = draw(st.sampled_from(['XGBClassifier', 'XGBRegressor', 'XGBRegressor', 'XGBRanker', 'XGBRFRegressor',
                                'XGBRFClassifier', 'Booster', 'Booster'] if not dump else ['XGBRegressor', 'Booster']))
    p = {'n_estimators': draw(st.integers(1, 6)), 'max_depth': draw(st.integers(1, 5)),
         'base_score': draw(st.sampled_from([.5, .5, .9, .2])),
         'learning_rate': draw(st.sampled_from([.3, 1.])), 'min_child_weight': draw(st.sampled_from([0, 1, 2]))}
    if gen.chance(draw, 40):
        p['gamma'] = draw(st.sampled_from([.1, 1., 5., 20.]))
    if gen.chance(draw, 40):
        p['tree_method'] = draw(st.sampled_from(['exact', 'hist', 'approx']))
    if gen.chance(draw, 20):
        p['subsample'] = .7
    if gen.chance(draw, 20) and cls in ('XGBClassifier', 'XGBRegressor', 'Booster'):
        p['num_parallel_tree'] = draw(st.integers(2, 3))
    if cls.startswith('XGBRF'):
        p.pop('learning_rate')
    k, clf, stop, group = 2, False, None, None
    y = draw(outputs(c, False))
    pos = [abs(v) + 1 for v in y]
    med = sorted(y)[n // 2]
    binary = [int(v >= med) for v in y]
    binary[0] = 1 - binary[1]
    if cls in ('XGBClassifier', 'XGBRFClassifier'):
        k = draw(st.sampled_from([2, 2, 3, 4]))
        y = draw(outputs(c, True, k))
    elif cls == 'XGBRanker':
        y = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        g = draw(st.integers(1, n - 1))
        group = [g, n - g]
    else:
        obj = draw(st.sampled_from(['reg:squarederror', 'reg:logistic'] if dump else
                                   BOOST_OBJ if cls == 'Booster' else REG_OBJ))
        p['objective'] = obj
        if obj in ('reg:logistic', 'binary:logistic', 'binary:logitraw', 'binary:hinge', 'rank:pairwise'):
            y = binary
        elif obj.startswith('multi'):
            k = draw(st.sampled_from([2, 3]))
            y = draw(outputs(c, True, k))
            p['num_class'] = k
        elif obj not in ('reg:squarederror', 'reg:pseudohubererror'):
            y = pos
    if cls in ('XGBClassifier', 'XGBRegressor') and not dump and gen.chance(draw, 35):
        cut = max(k * 2 if cls == 'XGBClassifier' else 2, (2 * n) // 3)
        if cut < n:
            stop = cut
            p['n_estimators'] = draw(st.integers(8, 20))
    c.update({'kind': cls, 'params': p, 'y': y, 'stop': stop, 'rounds': draw(st.integers(1, 3)), 'group': group,
              'w': None, 'nan': None})
    if dump:
        c['dump'] = draw(st.sampled_from(['json', 'get_json', 'text']))
    return c


LGB_OBJ = ['regression', 'regression', 'regression_l1', 'huber', 'fair', 'poisson', 'quantile', 'mape', 'gamma', 'tweedie']


@st.composite
def lgb_case(draw, dump=False):
    c = draw(table(draw(st.integers(1, 5)), 12, 40))
    n = len(c['D'])
    cls = draw(st.sampled_from(['LGBMRegressor', 'LGBMClassifier', 'LGBMRanker', 'Booster'] if not dump else
                               ['LGBMRegressor', 'Booster']))
    p = {'n_estimators': draw(st.integers(1, 6)), 'num_leaves': draw(st.integers(2, 10)),
         'min_child_samples': draw(st.integers(1, 8)), 'min_child_weight': 1e-3,
         'learning_rate': draw(st.sampled_from([.1, .5])), 'min_data_in_bin': 1, 'seed': draw(st.integers(0, 10 ** 6))}
    p['boosting'] = draw(st.sampled_from(['gbdt', 'gbdt', 'gbdt', 'dart', 'rf', 'goss'] if not dump else ['gbdt', 'dart']))
    if p['boosting'] == 'rf':
        p.update(bagging_freq=1, bagging_fraction=.7)
    if gen.chance(draw, 30):
        p['max_depth'] = draw(st.integers(1, 3))
    k, stop, group = 2, None, None
    y = draw(outputs(c, False))
    pos = [abs(v) + 1 for v in y]
    med = sorted(y)[n // 2]
    binary = [int(v >= med) for v in y]
    binary[0] = 1 - binary[1]
    if cls == 'LGBMClassifier':
        k = draw(st.sampled_from([2, 2, 3, 4]))
        y = draw(outputs(c, True, k))
    elif cls == 'LGBMRanker':
        y = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        g = draw(st.integers(1, n - 1))
        group = [g, n - g]
    else:
        p['objective'] = draw(st.sampled_from(LGB_OBJ + ([] if cls == 'LGBMRegressor' or dump else
                                                         ['binary', 'cross_entropy', 'multiclass', 'multiclassova'] * 2)))
        if p['objective'] in ('binary', 'cross_entropy'):
            y = binary
        elif p['objective'].startswith('multi'):
            k = draw(st.sampled_from([2, 3]))
            y = draw(outputs(c, True, k))
            p['num_class'] = k
        elif p['objective'] in ('poisson', 'gamma', 'tweedie', 'mape'):
            y = pos
    if cls in ('LGBMClassifier', 'LGBMRegressor') and not dump and p['boosting'] == 'gbdt' and gen.chance(draw, 35):
        cut = max(k * 2, (2 * n) // 3)
        if cut < n:
            stop = cut
            p['n_estimators'] = draw(st.integers(8, 20))
    c.update({'kind': cls, 'params': p, 'y': y, 'stop': stop, 'rounds': draw(st.integers(1, 3)), 'group': group,
              'dump': dump})
    return c


def lgb_steps(c):
    X, y = data_of(c), np.array(c['y'], dtype=float)
    s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'lgb', 'cls': c['kind'], 'params': c['params'], 'X': X, 'y': y,
         'group': c['group'], 'dump': c['dump']}
    if c['stop']:
        s['stop'] = [X[c['stop']:], y[c['stop']:], c['rounds']]
        s['X'], s['y'] = X[:c['stop']], y[:c['stop']]
    return s, X


def lgb_run(c, ctx):
    s, X = lgb_steps(c)
    check(c, ctx, [s], None, 1e-8, X, binary=c['kind'] == 'LGBMClassifier' and max(c['y']) < 2, flush=True)
    ctx.label('boosting:' + c['params']['boosting'])
    if 'objective' in c['params']:
        ctx.label('objective:' + c['params']['objective'])
    if c['stop']:
        ctx.label('early stopping')


HAND = ['dict', 'old', 'single', 'lgb_dict', 'lgb', 'catboost', 'spark']
SPARK = ['pyspark.ml.classification.DecisionTreeClassificationModel',
         'pyspark.ml.regression.DecisionTreeRegressionModel',
         'pyspark.ml.classification.RandomForestClassificationModel',
         'pyspark.ml.regression.RandomForestRegressionModel', 'pyspark.ml.regression.GBTRegressionModel',
         'pyspark.ml.classification.GBTClassificationModel']


@st.composite
def hand_case(draw, forms=tuple(HAND), split=False):
    form = draw(st.sampled_from(forms))
    c = draw(table(draw(st.integers(1, 6)), 2, 8))
    c['scale'], c['shift'] = 1., 0.
    d = c['d']
    c['kind'] = form
    path = None
    k = draw(st.integers(1, 3)) if form in ('dict', 'old', 'single') else 1
    leaf = gen.quarter(k)
    if form == 'spark':
        path = draw(st.sampled_from(SPARK))
        if 'Classification' in path and 'GBT' not in path:
            k = draw(st.sampled_from([2, 3]))
            leaf = gen.counts(k)
    n_hi = 1 if path and 'DecisionTree' in path else 5
    ts = draw(gen.forest(d, 1, n_hi, 6, leaf, full=draw(st.sampled_from([50, 80])), split=True))
    c['offset'] = None
    if form in ('dict', 'old') and gen.chance(draw, 60):
        c['offset'] = draw(st.lists(st.integers(-8, 8).map(lambda v: v / 4.), min_size=k, max_size=k)) \
            if k > 1 or gen.chance(draw, 50) else draw(st.integers(-8, 8)) / 4.
    if form.startswith('lgb'):
        c['perm'] = []
        for t in ts:
            m = len(O.leaves(O.flatten(t), d))
            c['perm'].append(list(draw(st.permutations(range(m)))))
        path = 'gpboost.basic.Booster'
    if form == 'catboost':
        c['cat'] = []
        for _ in range(len(ts)):
            dep = draw(st.integers(1, 3))
            sp = draw(st.lists(st.tuples(st.integers(0, d - 1), st.integers(0, 2 * gen.G - 1)), min_size=dep, max_size=dep))
            v = draw(st.lists(st.integers(-12, 12).map(lambda v: v / 4.), min_size=2 ** dep, max_size=2 ** dep))
            c['cat'].append([[list(x) for x in sp], v])
    c['path'] = path
    c['order'] = draw(st.sampled_from(['dfs', 'bfs']))
    c['trees'] = ts
    c['weights'] = draw(st.lists(st.sampled_from([.25, .5, 1., 2.]), min_size=len(ts), max_size=len(ts)))
    # numbering of the nodes (the root stays first), and which child missing values take
    c['mix'] = draw(st.lists(st.integers(0, 10 ** 6), min_size=len(ts), max_size=len(ts)))
    c['bits'] = draw(st.integers(0, 2 ** 16))
    return c


# ---------------------------------------------------------------- hand-made trees
def renumber(t, seed):
    m = len(t['children_left'])
    r = np.random.RandomState(seed)
    pos = np.concatenate([[0], 1 + r.permutation(m - 1)]).astype(int) if seed % 3 else np.arange(m)  # old -> new
    u = {}
    for k in ('children_left', 'children_right', 'children_default', 'features', 'thresholds', 'values',
              'node_sample_weight'):
        v = np.asarray(t[k])
        if k.startswith('children'):
            v = np.where(v >= 0, pos[np.maximum(v, 0)], v)
        w = np.empty_like(v)
        w[pos] = v
        u[k] = w
    u['depth'] = t['depth']
    return u


def hand_spec(c):
    """The step that builds the model, and the trees (with the values it predicts with) of the reference."""
    form = c['kind']
    flat = []
    for q, t in enumerate(c['trees']):
        f = O.flatten(t, c['order'])
        m = len(f['children_left'])
        right = np.array([(c['bits'] >> (i % 16)) & 1 for i in range(m)], dtype=bool)
        f['children_default'] = np.where(right, f['children_right'], f['children_left'])
        flat.append(renumber(f, c['mix'][q]) if form in ('dict', 'old', 'single') else f)
    s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'by_hand', 'form': form, 'trees': [O.wire_tree(t) for t in flat],
         'offset': c['offset'], 'weights': c['weights'], 'path': c['path'], 'perm': c.get('perm')}
    k = len(flat[0]['values'][0])
    off = np.zeros(k) if c['offset'] is None else np.ones(k) * np.array(c['offset'])
    if form == 'catboost':
        s['cat'], flat = [], []
        for sp, v in c['cat']:
            s['cat'].append({'splits': [{'border': b / 2., 'float_feature_index': f, 'split_index': i,
                                         'split_type': 'FloatFeature'} for i, (f, b) in enumerate(sp)],
                             'leaf_values': v, 'leaf_weights': [1. + i for i in range(len(v))]})
            flat.append((sp, v))
        s['cat_depth'] = max(len(sp) for sp, _ in flat)
        return s, flat, np.zeros(1)
    if form == 'spark':
        for t in flat:  # the stats of a node are class counts, the impurity's; scaled by the weight in the stand-in
            v = np.array(t['values'], dtype=float)
            if 'Classification' in c['path'] and 'GBT' not in c['path']:
                v = v / v.sum(axis=1, keepdims=True)
            t['values'] = v
        s['trees'] = [O.wire_tree(t) for t in flat]
        if 'GBT' in c['path']:
            sc = c['weights']
        elif 'Forest' in c['path']:
            sc = np.array(c['weights']) / sum(c['weights'])
        else:
            sc = [1.] * len(flat)
        flat = [dict(t, values=t['values'] * w) for t, w in zip(flat, sc)]
    return s, flat, off


def hand_raw(c, flat, off, X):
    out = np.zeros((len(X), len(off))) + off
    if c['kind'] == 'catboost':
        for sp, v in flat:
            out += np.array([[v[sum(int(x[f] > b / 2.) << i for i, (f, b) in enumerate(sp))]] for x in X])
        return out
    for t in flat:
        for i, x in enumerate(X):
            n = 0
            while t['children_left'][n] >= 0:
                z = x[t['features'][n]]
                n = t['children_default'][n] if np.isnan(z) else \
                    t['children_left'][n] if z <= t['thresholds'][n] else t['children_right'][n]
            out[i] += t['values'][n]
    return out


# ---------------------------------------------------------------- judging
def attr(k):
    return {'op': 'attr', 'obj': 'a', 'attr': k}


BUILD = [{'op': 'attr', 'obj': 'z', 'attr': 'model', 'id': 'm', 'discard': True}]


def load(data):
    return BUILD + [{'op': 'new', 'id': 'a', 'kind': 'acvtree', 'model': ('__ref__', 'm'), 'data': data}]


def structure(a, X, d):
    """Leaf boxes, paths and routing of the loaded trees; returns what their leaves sum to on the rows X."""
    T = len(a['leaves_nb'])
    k = int(a['num_outputs'])
    off = np.asarray(a['base_offset'], dtype=float)
    if off.shape != (k,):
        raise Violation('load', 'base_offset %s for %d outputs' % (off.tolist(), k))
    total = np.zeros((len(X), k)) + off
    widest, splits, reach_all = 0, 0, []
    for q in range(T):
        t = {'children_left': np.asarray(a['children_left'][q]), 'children_right': np.asarray(a['children_right'][q]),
             'features': np.asarray(a['features'][q]), 'thresholds': np.asarray(a['thresholds'][q], dtype=float),
             'values': np.asarray(a['values'][q], dtype=float)}
        paths, order = {}, [(0, [])]
        while order:
            n, path = order.pop()
            if t['children_left'][n] < 0:
                paths[n] = path
                continue
            f, th = int(t['features'][n]), float(t['thresholds'][n])
            if not 0 <= f < d:
                raise Violation('load', 'tree %d: node %d splits on variable %d' % (q, n, f))
            order.append((t['children_left'][n], path + [(f, 1, th)]))
            order.append((t['children_right'][n], path + [(f, 0, th)]))
        splits += len(paths) - 1
        nb = int(a['leaves_nb'][q])
        idx = np.asarray(a['leaf_idx_trees'])[q, :nb].astype(int).tolist()
        if sorted(idx) != sorted(int(n) for n in paths):
            raise Violation('load', 'tree %d: leaves %s, the tree has %s' % (q, idx, sorted(int(n) for n in paths)))
        boxes = np.asarray(a['partition_leaves_trees'], dtype=float)[q]
        for j, n in enumerate(idx):
            want = np.array([[-np.inf, np.inf]] * d)
            for f, side, th in paths[n]:
                want[f, side] = min(want[f, side], th) if side else max(want[f, side], th)
            if not np.array_equal(boxes[j], want):
                raise Violation('leaf boxes', 'tree %d leaf %d: box %s, its path gives %s'
                                % (q, n, boxes[j].tolist(), want.tolist()))
            vs = sorted(int(v) for v in a['node_idx_trees'][q][j])
            on_path = sorted(set(f for f, _, _ in paths[n]))
            if vs != on_path:
                raise Violation('leaf boxes', 'tree %d leaf %d: variables %s, on its path %s' % (q, n, vs, on_path))
            widest = max(widest, len(on_path))
        for x in X:
            hit = [idx[j] for j in range(nb) if ((x > boxes[j, :, 0]) & (x <= boxes[j, :, 1])).all()]
            n = 0
            while t['children_left'][n] >= 0:
                n = t['children_left'][n] if x[t['features'][n]] <= t['thresholds'][n] else t['children_right'][n]
            if hit != [n]:
                raise Violation('leaf boxes', 'tree %d: row %s lies in the boxes of leaves %s, its tree routes it to %d'
                                % (q, x.tolist(), hit, n))
        total += t['values'][O.route(t, X)]
    if int(a['max_var']) != widest:
        raise Violation('load', 'max_var %s, the longest path has %d variables' % (a['max_var'], widest))
    return total, splits


def two_d(v, n):
    return np.asarray(v, dtype=float).reshape(n, -1)


def judge(site, got, want, tol, rows):
    if got.shape != want.shape:
        raise Violation(site, 'shape %s, expected %s' % (got.shape, want.shape))
    if not np.isfinite(want).all():
        raise Skip()
    err = np.abs(got - want)
    lim = tol * (1 + np.abs(want).max())
    bad = np.argwhere(~(err <= lim))
    if len(bad):
        i = bad[0][0]
        raise Violation(site, 'row %s: %s, the model says %s' % (rows[i].tolist(), got[i].tolist(), want[i].tolist()))


def check(c, ctx, steps, raw, tol, data, binary=False, can_predict=True, flush=False):
    """raw: None when the model is asked, else a function of the rows."""
    d = c['d']
    Z = np.concatenate([data, rows_of(c)])
    if flush:
        Z[np.abs(Z) < 1e-30] = 0.
    prog = steps + load(data) + [
        {'op': 'fn', 'f': 'zoo:probe', 'a': [('__ref__', 'a'), Z, c['seed'], 12, flush], 'id': 'P'}]
    n0 = len(prog)
    prog += [attr(k) for k in TREE_ATTRS]
    if raw is None:
        prog += [{'op': 'call', 'obj': 'z', 'm': 'raw', 'a': [Z]}, {'op': 'call', 'obj': 'z', 'm': 'raw', 'a': [('__ref__', 'P')]}]
    if can_predict:
        prog += [{'op': 'call', 'obj': 'a', 'm': 'predict', 'a': [Z]},
                 {'op': 'call', 'obj': 'a', 'm': 'predict', 'a': [('__ref__', 'P')]},
                 {'op': 'call', 'obj': 'a', 'm': 'predict', 'a': [Z[0]]}]
    if binary:
        prog.append(attr('values_binary'))
    r = ctx.prog(prog)
    if 'exc' in r[0] and r[0]['exc'][0] == 'LightGBMError':  # it could not fit the model
        raise Skip()
    r = [x['ok'] for x in r] if all('ok' in x for x in r) else ctx.values(prog)
    P = np.asarray(r[n0 - 1], dtype=float).reshape(-1, d)
    a = dict(zip(TREE_ATTRS, r[n0:]))
    rest = r[n0 + len(TREE_ATTRS):]
    rows = np.concatenate([Z, P])
    if raw is None:
        want = two_d(rest[0], len(Z))
        if len(P):
            want = np.concatenate([want, two_d(rest[1], len(P))])
        rest = rest[2:]
    else:
        want = raw(rows)
    total, splits = structure(a, rows, d)
    judge('load', total, want, tol, rows)
    if can_predict:
        got = two_d(rest[0], len(Z))
        if len(P):
            got = np.concatenate([got, two_d(rest[1], len(P))])
        judge('predict', got, want, tol, rows)
        judge('predict', two_d(rest[2], 1), want[:1], tol, rows)
    if binary:
        vb = np.asarray(rest[-1], dtype=float)
        T = len(a['leaves_nb'])
        for q in range(T):
            for n in np.asarray(a['leaf_idx_trees'])[q, :int(a['leaves_nb'][q])].astype(int):
                p = 1 / (1 + np.exp(-float(np.asarray(a['values'])[q, n, 0])))
                if vb.shape[2] != 2 or not close(vb[q, n], np.array([1 - p, p]) / T, 1e-6, 1e-6):
                    raise Violation('values_binary', 'tree %d leaf %d: %s for the value %s'
                                    % (q, n, vb[q, n].tolist(), np.asarray(a['values'])[q, n].tolist()))
    ctx.label('kind:' + c['kind'], 'd:%d' % d, 'outputs:%d' % want.shape[1])
    ctx.nontrivial = splits > 0 and len(np.unique(want.round(9), axis=0)) > 1
    return a


def sk_run(c, ctx):
    cls, raw = SK[c['kind']]
    X = data_of(c)
    s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'sklearn', 'cls': cls, 'raw': raw, 'params': c['params'], 'X': X,
         'y': np.array(c['y'], dtype=float) if not c['kind'].endswith('clf') else np.array(c['y']), 'w': c['w'],
         'alias': c['alias']}
    check(c, ctx, [s], None, 1e-8, X, binary=c['kind'] == 'gb_clf')
    if c['alias']:
        ctx.label('alias:' + c['alias'].split('.')[0])
    if 'loss' in c['params']:
        ctx.label('loss:' + c['params']['loss'])


def ranger_run(c, ctx):
    X = data_of(c)
    s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'ranger', 'params': c['params'], 'X': X, 'y': np.array(c['y'])}
    check(c, ctx, [s], None, 1e-8, X)


def xgb_steps(c):
    X, y = data_of(c), np.array(c['y'], dtype=float)
    s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'xgb', 'cls': c['kind'], 'params': c['params'], 'X': X, 'y': y,
         'w': c['w'], 'group': c['group'], 'dump': c.get('dump')}
    if c['stop']:
        s['stop'] = [X[c['stop']:], y[c['stop']:], c['rounds']]
        s['X'], s['y'] = X[:c['stop']], y[:c['stop']]
    if c.get('dump'):
        b = c['params']['base_score']
        s['offset'] = float(np.log(b / (1 - b))) if c['params']['objective'] == 'reg:logistic' else b
    return s, X


def xgb_run(c, ctx):
    s, X = xgb_steps(c)
    binary = c['kind'] == 'XGBClassifier' and max(c['y']) < 2
    check(c, ctx, [s], None, 2e-5, X, binary=binary)
    if c['kind'] == 'Booster' or 'objective' in c['params']:
        ctx.label('objective:' + c['params']['objective'])
    if c['stop']:
        ctx.label('early stopping')
    if c['params'].get('gamma'):
        ctx.label('pruned')
    if c.get('dump'):
        ctx.label('dump:' + c['dump'])


def hand_run(c, ctx):
    s, flat, off = hand_spec(c)
    binary = c['kind'] == 'catboost'
    X = data_of(c)
    check(c, ctx, [s], lambda Z: hand_raw(c, flat, off, Z), 1e-9, X, binary=binary, can_predict=c['kind'] != 'spark')
    if c['path'] and c['kind'] != 'lgb_dict':
        ctx.label(c['path'])


# ---------------------------------------------------------------- missing values
@st.composite
def missing_case(draw):
    which = draw(st.sampled_from(['dict', 'hgb', 'xgb', 'lgb', 'dump']))
    if which == 'dict':
        c = draw(hand_case(('dict', 'old', 'lgb_dict')))
    elif which == 'hgb':
        c = draw(sk_case(('hgb_reg', 'hgb_clf')))
    elif which == 'lgb':
        c = draw(lgb_case())
    else:
        c = draw(xgb_case(dump=which == 'dump'))
    c['which'] = which
    c['train_nan'] = draw(st.integers(0, 2 ** 20 - 1)) if gen.chance(draw, 70) else 0
    c['nan'] = [draw(st.integers(1, 2 ** c['d'] - 1)) for _ in range(len(c['Z']))]
    return c


def missing_run(c, ctx):
    X = data_of(c)
    holed = X.copy()
    for i in range(len(X)):
        if (c['train_nan'] >> (i % 20)) & 1:
            holed[i, (c['train_nan'] + i) % c['d']] = np.nan
    Z = rows_of(c)
    for x, m in zip(Z, c['nan']):
        x[[j for j in range(c['d']) if (m >> j) & 1]] = np.nan
    tol, want = 1e-8, None
    if c['which'] == 'dict':
        c2 = dict(c)
        s, flat, off = hand_spec(c2)
        want = hand_raw(c2, flat, off, Z)
    elif c['which'] == 'hgb':
        cls, raw = SK[c['kind']]
        s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'sklearn', 'cls': cls, 'raw': raw, 'params': c['params'],
             'X': holed, 'y': np.array(c['y']), 'w': None, 'alias': None}
    else:
        s, _ = lgb_steps(c) if c['which'] == 'lgb' else xgb_steps(c)
        s['X'] = holed[:len(s['X'])]
        tol = 2e-5
        if c['which'] == 'lgb':
            Z[np.abs(Z) < 1e-30] = 0.
    prog = [s] + load(X) + [{'op': 'call', 'obj': 'a', 'm': 'predict', 'a': [Z]}]
    if want is None:
        prog.append({'op': 'call', 'obj': 'z', 'm': 'raw', 'a': [Z]})
    r = ctx.prog(prog)
    if 'exc' in r[0] and r[0]['exc'][0] == 'LightGBMError':
        raise Skip()
    r = [x['ok'] for x in r] if all('ok' in x for x in r) else ctx.values(prog)
    n = len(prog) - (2 if want is None else 1)
    want = two_d(r[-1], len(Z)) if want is None else want
    judge('predict', two_d(r[n], len(Z)), want, tol, Z)
    ctx.label('kind:' + c['kind'], 'which:' + c['which'])
    ctx.nontrivial = len(np.unique(want.round(9), axis=0)) > 1


# ---------------------------------------------------------------- other ways of asking
@st.composite
def calls_case(draw):
    which = draw(st.sampled_from(['hand', 'sk', 'xgb', 'lgb']))
    if which == 'hand':
        c = draw(hand_case(('dict', 'old', 'single', 'lgb_dict', 'lgb', 'catboost')))
    elif which == 'sk':
        c = draw(sk_case())
    else:
        c = draw(xgb_case() if which == 'xgb' else lgb_case())
    c['which'] = which
    return c


def calls_run(c, ctx):
    X, d = data_of(c), c['d']
    if c['which'] == 'hand':
        s = hand_spec(c)[0]
    elif c['which'] == 'sk':
        cls, raw = SK[c['kind']]
        y = np.array(c['y'], dtype=float) if not c['kind'].endswith('clf') else np.array(c['y'])
        s = {'op': 'new', 'id': 'z', 'kind': 'zoo', 'lib': 'sklearn', 'cls': cls, 'raw': raw, 'params': c['params'], 'X': X,
             'y': y, 'w': c['w'], 'alias': c['alias']}
    else:
        s = (xgb_steps if c['which'] == 'xgb' else lgb_steps)(c)[0]
    Z = np.concatenate([X, rows_of(c)])
    prog = [s] + load(X) + [attr(k) for k in TREE_ATTRS] + [{'op': 'fn', 'f': 'zoo:tree_calls', 'a': [('__ref__', 'a'), Z]}]
    r = ctx.prog(prog)
    if 'exc' in r[0] and r[0]['exc'][0] == 'LightGBMError':
        raise Skip()
    r = [x['ok'] for x in r] if all('ok' in x for x in r) else ctx.values(prog)
    a = dict(zip(TREE_ATTRS, r[-1 - len(TREE_ATTRS):-1]))
    got = r[-1]
    k, n = int(a['num_outputs']), len(Z)
    Z = Z.astype(np.float32).astype(float)  # the trees see rows in single precision
    part = [np.zeros((n, k)) + np.asarray(a['base_offset'], dtype=float)]
    for q in range(len(a['leaves_nb'])):
        t = {z: np.asarray(a[z][q]) for z in ('children_left', 'children_right', 'features', 'thresholds')}
        part.append(part[-1] + np.asarray(a['values'][q], dtype=float)[O.route(t, Z)])
    full = part[-1]
    for i, v in enumerate(got['forms'] + got['none']):
        judge('predict in form %d' % i, two_d(v, n), full, 1e-6, Z)
    for i, v in enumerate(got['row']):
        judge('predict of a row in form %d' % i, two_d(v, 1), full[:1], 1e-6, Z)
    for i, v in enumerate(got['limit']):
        judge('predict with tree_limit=%d' % (i + 1), two_d(v, n), part[min(i + 1, len(part) - 1)], 1e-6, Z)
    for q, u in enumerate(got['trees']):
        t = dict(zip(('children_left', 'children_right', 'features', 'thresholds'), u['tree']))
        want = np.asarray(u['tree'][4], dtype=float)[O.route(t, Z)] / u['scaling']
        for v in u['forms']:
            judge('tree %d alone' % q, two_d(v, n), want, 1e-6, Z)
        for v in u['row']:
            judge('tree %d alone, one row' % q, two_d(v, 1), want[:1], 1e-6, Z)
    ctx.label('kind:' + c['kind'], 'trees:%d' % len(got['trees']))
    ctx.nontrivial = len(part) > 2 and len(np.unique(full.round(9), axis=0)) > 1


RULE = ('hand: 1-5 hand-made trees of depth <= 6 over 1-6 variables with nodes numbered in any order, as (old-style) '
        'dictionaries, SingleTree lists, LightGBM/GPBoost/CatBoost/Spark dumps through stand-ins. sklearn, ranger, xgboost, '
        'lightgbm, dumps: models of every kind fitted on 8-40 rows over 1-5 grid variables. Rows: the data, half-grid '
        'values and the trees\' own thresholds, exactly and one float32 away. missing: rows with NaN. '
        'calls: predict with rows in other forms or fewer trees, and each tree alone, against the loaded trees. '
        'Non-trivial: some tree splits and the rows get different outputs.')
FACETS = [Facet('hand', hand_case(), hand_run, quick=1000, thorough=30000, shards=4),
          Facet('sklearn', sk_case(), sk_run, quick=1000, thorough=30000, shards=6),
          Facet('xgboost', xgb_case(), xgb_run, quick=900, thorough=30000, shards=6),
          Facet('lightgbm', lgb_case(), lgb_run, quick=800, thorough=30000, shards=4),
          Facet('dumps', xgb_case(dump=True), xgb_run, quick=400, thorough=15000, shards=3),
          Facet('ranger', ranger_case(), ranger_run, quick=240, thorough=8000, shards=3),
          Facet('missing', missing_case(), missing_run, quick=600, thorough=20000, shards=4),
          Facet('calls', calls_case(), calls_run, quick=240, thorough=8000, shards=4)]
