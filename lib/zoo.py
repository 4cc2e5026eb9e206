"""Tree models of every kind the library loads, fitted or built by hand, with their raw output (runs under PyPy).

Kinds of libraries that are not installed are stand-ins: a class at the documented import path whose methods
answer in the documented dump format, built from a generated tree.
"""
import importlib.machinery as machinery
import json
import sys
import types

import numpy as np

FAKES = []


def fake_class(path, **methods):
    """The class `path`, in stand-in modules that exist until the next program."""
    mod, cls = path.rsplit('.', 1)
    parts = mod.split('.')
    for i in range(1, len(parts) + 1):
        name = '.'.join(parts[:i])
        if name not in sys.modules:
            sys.modules[name] = types.ModuleType(name)
            FAKES.append(name)
    m = sys.modules[mod]
    assert mod in FAKES, mod
    c = type(cls, (object,), dict(methods, __module__=mod))
    setattr(m, cls, c)
    return c


def clear():
    while FAKES:
        sys.modules.pop(FAKES.pop(), None)


class LightGBM(object):
    """Imports LightGBM with the two places where PyPy's ctypes refuses an address for a char pointer adapted."""

    class Loader(machinery.SourceFileLoader):
        def get_code(self, name):
            src = self.get_data(self.path).decode()
            src = src.replace('(ctypes.c_char_p * ', '(ctypes.c_void_p * ')
            return compile(src.replace('ctypes.c_char_p(*[', 'ctypes.c_void_p(*['), self.path, 'exec')

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name == 'lightgbm.basic':
            sp = machinery.PathFinder.find_spec(name, path)
            if sp is not None:
                sp.loader = cls.Loader(name, sp.origin)
            return sp


sys.meta_path.insert(0, LightGBM)


class Zoo(object):
    """model: what is handed to the library; raw(X): what it must reproduce."""

    def __init__(self, s):
        getattr(self, s['lib'])(s)

    # ------------------------------------------------------------ scikit-learn
    def sklearn(self, s):
        import importlib
        X, y = np.asarray(s['X'], dtype=float), np.asarray(s['y'])
        mod, cls = s['cls'].rsplit('.', 1)
        m = getattr(importlib.import_module(mod), cls)(**s['params'])
        w = None if s.get('w') is None else np.asarray(s['w'], dtype=float)
        self.model = m
        if cls == 'IsolationForest':
            from sklearn.ensemble._iforest import _average_path_length as apl
            m.fit(X)
            norm = apl(np.array([m.max_samples_]))[0]
            self.raw = lambda Z: -np.log2(-m.score_samples(Z)) * norm
        else:
            m.fit(X, y, **({} if w is None else {'sample_weight': w}))
            self.raw = {'proba': lambda Z: m.predict_proba(Z), 'predict': lambda Z: m.predict(Z),
                        'decision': lambda Z: m.decision_function(Z)}[s['raw']]
        if s.get('alias'):
            c = fake_class(s['alias'])
            a = c()
            for k in ('estimators_', 'estimators_features_', 'criterion'):
                if hasattr(m, k):
                    setattr(a, k, getattr(m, k))
            a.detector_ = m
            self.model = a

    def ranger(self, s):
        from skranger.ensemble import RangerForestClassifier
        X, y = np.asarray(s['X'], dtype=float), np.asarray(s['y'])
        m = RangerForestClassifier(enable_tree_details=True, **s['params']).fit(X, y)
        self.model = m

        def raw(Z):
            # what the trees it exposes say (its own predict_proba counts the votes otherwise)
            out = 0.
            for e in m.estimators_:
                t = e.tree_
                cl, cr = t.children_left, t.children_right
                v = t.value.reshape(len(cl), -1)
                n = np.zeros(len(Z), dtype=int)
                for _ in range(len(cl)):
                    inner = cl[n] >= 0
                    f = np.where(inner, np.maximum(t.feature[n], 0), 0)
                    go = Z[np.arange(len(Z)), f] <= t.threshold[n]
                    n = np.where(inner, np.where(go, cl[n], cr[n]), n)
                out = out + v[n] / v[n].sum(axis=1, keepdims=True)
            return out / len(m.estimators_)
        self.raw = raw

    # ------------------------------------------------------------ xgboost
    def xgb(self, s):
        import xgboost as xgb
        X, y = np.asarray(s['X'], dtype=float), np.asarray(s['y'], dtype=float)
        p = dict(s['params'], verbosity=0, nthread=1)
        kw = {'sample_weight': np.asarray(s['w'], dtype=float)} if s.get('w') is not None else {}
        if s['cls'] == 'Booster':
            D = xgb.DMatrix(X, y)
            rounds = p.pop('n_estimators')
            if p.get('objective') == 'survival:aft':
                D.set_float_info('label_lower_bound', y)
                D.set_float_info('label_upper_bound', y)
            m = xgb.train(p, D, rounds)
            self.raw = lambda Z: m.predict(xgb.DMatrix(Z), output_margin=True)
        elif s['cls'] == 'XGBRanker':
            p.pop('nthread')
            m = xgb.XGBRanker(n_jobs=1, **p).fit(X, y, group=s['group'])
            self.raw = lambda Z: m.predict(Z, output_margin=True)
        else:
            p.pop('nthread')
            if s['cls'] == 'XGBClassifier':
                p['use_label_encoder'] = False
            m = getattr(xgb, s['cls'])(n_jobs=1, **p)
            if s.get('stop'):
                kw.update(eval_set=[(np.asarray(s['stop'][0], dtype=float), np.asarray(s['stop'][1], dtype=float))],
                          early_stopping_rounds=s['stop'][2], verbose=False)
            m.fit(X, y, **kw)
            self.raw = lambda Z: m.predict(Z, output_margin=True)
        self.model = m
        if s.get('dump'):
            b = m if s['cls'] == 'Booster' else m.get_booster()
            if s['dump'] == 'json':
                ts = [json.loads(t) for t in b.get_dump(with_stats=True, dump_format='json')]
            elif s['dump'] == 'get_json':
                from acv_explainers.base_tree import get_xgboost_json
                ts = [json.loads(t) for t in get_xgboost_json(b)]
            else:
                ts = b.get_dump(with_stats=True)
            self.model = {'trees': ts, 'base_offset': s['offset']}

    # ------------------------------------------------------------ lightgbm
    def lgb(self, s):
        import lightgbm as L
        X, y = np.asarray(s['X'], dtype=float), np.asarray(s['y'], dtype=float)
        p = dict(s['params'], verbosity=-1)
        if s['cls'] == 'Booster':
            rounds = p.pop('n_estimators')
            m = L.train(dict(p, num_threads=1), L.Dataset(X, y, params={'verbosity': -1}), rounds)
            self.raw = lambda Z: m.predict(Z, raw_score=True)
        else:
            m, kw = getattr(L, s['cls'])(n_jobs=1, **p), {}
            if s.get('stop'):
                kw = {'eval_set': [(np.asarray(s['stop'][0], dtype=float), np.asarray(s['stop'][1], dtype=float))],
                      'callbacks': [L.early_stopping(s['stop'][2], verbose=False)]}
            if s.get('group'):
                kw['group'] = s['group']
            m.fit(X, y, **kw)
            self.raw = lambda Z: m.predict(Z, raw_score=True)
        self.model = m
        if s.get('dump'):
            b = m if s['cls'] == 'Booster' else m.booster_
            self.model = {'trees': b.dump_model()['tree_info']}

    # ------------------------------------------------------------ hand-made
    def by_hand(self, s):
        self.raw = None
        getattr(self, 'hand_' + s['form'])(s)

    def hand_dict(self, s):
        ts = [self.arrays(t, '') for t in s['trees']]
        self.model = dict({'trees': ts}, **({} if s['offset'] is None else {'base_offset': self.offset(s)}))

    def hand_old(self, s):
        ts = [self.arrays(t, '') for t in s['trees']]
        for t in ts:
            for a, b in (('features', 'feature'), ('thresholds', 'threshold'), ('values', 'value')):
                t[b] = t.pop(a)
        self.model = dict({'trees': ts}, **({} if s['offset'] is None else {'base_offset': self.offset(s)}))

    def hand_single(self, s):
        from acv_explainers.base_tree import SingleTree
        self.model = [SingleTree(self.arrays(t, '')) for t in s['trees']]

    def offset(self, s):
        return np.array(s['offset'], dtype=float) if isinstance(s['offset'], list) else s['offset']

    def arrays(self, t, _):
        i32 = ('children_left', 'children_right', 'children_default', 'features')
        return {k: np.array(t[k], dtype=np.int32 if k in i32 else np.float64)
                for k in i32 + ('thresholds', 'values', 'node_sample_weight')}

    def lgb_info(self, s):
        out = []
        for q, t in enumerate(s['trees']):
            cl, cr = t['children_left'], t['children_right']
            inner = [i for i in range(len(cl)) if cl[i] >= 0]
            leaf = [i for i in range(len(cl)) if cl[i] < 0]
            pi, pl = {n: j for j, n in enumerate(inner)}, {n: j for j, n in enumerate(s['perm'][q])}

            def rec(n):
                if cl[n] < 0:
                    return {'leaf_index': pl[leaf.index(n)], 'leaf_value': t['values'][n][0],
                            'leaf_weight': t['node_sample_weight'][n], 'leaf_count': int(t['node_sample_weight'][n])}
                return {'split_index': pi[n], 'split_feature': t['features'][n], 'split_gain': 1.,
                        'threshold': t['thresholds'][n], 'decision_type': '<=',
                        'default_left': t['children_default'][n] == cl[n], 'missing_type': 'NaN',
                        'internal_value': t['values'][n][0], 'internal_weight': t['node_sample_weight'][n],
                        'internal_count': int(t['node_sample_weight'][n]),
                        'left_child': rec(cl[n]), 'right_child': rec(cr[n])}
            out.append({'tree_index': q, 'num_leaves': len(leaf), 'num_cat': 0, 'shrinkage': 1, 'tree_structure': rec(0)})
        return out

    def hand_lgb_dict(self, s):
        self.model = {'trees': self.lgb_info(s)}

    def hand_lgb(self, s):
        info = self.lgb_info(s)

        def dump_model(self):
            return {'name': 'tree', 'num_class': 1, 'tree_info': info}
        self.model = fake_class(s['path'], dump_model=dump_model)()
        self.model.params = {}

    def hand_catboost(self, s):
        doc = {'oblivious_trees': s['cat'], 'scale_and_bias': [1, [0]],
               'model_info': {'params': {'tree_learner_options': {'depth': s['cat_depth']}}}}

        def save_model(self, path, format=None):
            assert format == 'json'
            with open(path, 'w') as f:
                json.dump(doc, f)
        m = fake_class('catboost.core.CatBoostClassifier', save_model=save_model,
                       get_cat_feature_indices=lambda self: [])()
        self.model = m

    def hand_spark(self, s):
        clf = 'Classification' in s['path']
        c = fake_class('pyspark.ml.%s.DecisionTree%sModel' % (('classification', 'Classification') if clf else
                                                              ('regression', 'Regression')))
        trees = []
        for t in s['trees']:
            cl = t['children_left']

            class Obj(object):
                def __init__(self, **k):
                    self.__dict__.update({a: (lambda b: lambda: b)(b) for a, b in k.items()})

            def rec(n, t=t, cl=cl):
                w, v = t['node_sample_weight'][n], t['values'][n]
                st = Obj(stats=[x * w for x in v], count=int(w))
                if cl[n] < 0:
                    return Obj(subtreeDepth=0, prediction=v[0], impurityStats=st)
                a, b = rec(cl[n]), rec(t['children_right'][n])
                return Obj(subtreeDepth=1 + max(a.subtreeDepth(), b.subtreeDepth()), prediction=v[0], impurityStats=st,
                           leftChild=a, rightChild=b,
                           split=Obj(featureIndex=t['features'][n], threshold=t['thresholds'][n],
                                     getClass='class org.apache.spark.ml.tree.ContinuousSplit'))
            j = Obj(rootNode=rec(0), getImpurity='gini' if clf else 'variance')
            o = c()
            o._java_obj = j
            trees.append(o)
        if 'DecisionTree' in s['path']:
            self.model = trees[0]
            return
        m = fake_class(s['path'])()
        m.trees, m.treeWeights, m._java_obj = trees, s['weights'], trees[0]._java_obj
        self.model = m


def probe(acv, rows, seed, n, flush=False):
    """Copies of the rows with coordinates moved onto, just below and just above thresholds of the loaded trees."""
    r = np.random.RandomState(seed)
    cl, f, th = np.asarray(acv.children_left), np.asarray(acv.features), np.asarray(acv.thresholds)
    inner = np.argwhere(cl >= 0)
    out = []
    if len(inner):
        for _ in range(n):
            x = np.array(rows[r.randint(len(rows))], dtype=float)
            for _ in range(r.randint(1, 3)):
                i, j = inner[r.randint(len(inner))]
                if not 0 <= f[i, j] < len(x):
                    continue
                v = np.float32(th[i, j])
                e = r.randint(-1, 2)
                x[f[i, j]] = v if e == 0 else np.nextafter(v, np.float32(np.inf if e > 0 else -np.inf))
            out.append(x)
    if not out:
        out = [rows[0]]
    out = np.array(out, dtype=float).reshape(-1, np.asarray(rows).shape[1])
    if flush:  # LightGBM takes values that small for zeros
        out[np.abs(out) < 1e-30] = 0.
    return out


def tree_calls(acv, Z):
    """What predict answers to rows in other forms, with fewer trees, and what each tree answers by itself."""
    import pandas as pd
    F = pd.DataFrame(Z)
    return {'forms': [acv.predict(F), acv.predict(np.asfortranarray(Z)), acv.predict(Z[:, ::-1][:, ::-1])],
            'row': [acv.predict(Z[0]), acv.predict(F.iloc[0]), acv.predict(Z[:1])],
            'limit': [acv.predict(Z, tree_limit=k) for k in range(1, len(acv.trees) + 2)],
            'none': [acv.predict(Z, tree_limit=-1), acv.predict(Z)],
            'trees': [{'scaling': float(t.scaling), 'tree': [np.asarray(t.children_left), np.asarray(t.children_right),
                                                             np.asarray(t.features), np.asarray(t.thresholds),
                                                             np.asarray(t.values)],
                       'forms': [t.predict(Z), t.predict(F), t.predict(np.asfortranarray(Z))],
                       'row': [t.predict(Z[0]), t.predict(F.iloc[0])]} for t in acv.trees]}
