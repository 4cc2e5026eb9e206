"""Worker side of C23: the toy experiments of /repo/experiments (their R packages replaced by stand-ins) and
the helpers of acv_explainers.utils whose results do not travel as they are (frames, models)."""
import importlib
import os
import sys
import types

import numpy as np


def _r_stand_ins():
    """rpy2 with the only R function the experiments call: the conditional box probability of a Gaussian."""
    from scipy.stats import _mvn as mvn, norm

    def pcmvnorm(low, up, mean, cov, dep, given, x):
        low, up, mean, cov = (np.asarray(v, dtype=float) for v in (low, up, mean, cov))
        dep, given = np.asarray(dep, dtype=int) - 1, np.asarray(given, dtype=int) - 1
        x = np.asarray(x, dtype=float)
        if len(low) != len(dep) or len(up) != len(dep) or len(x) != len(given):
            raise ValueError('pcmvnorm: sizes of the bounds, indices and values do not agree')
        if len(given):
            k = cov[np.ix_(dep, given)].dot(np.linalg.inv(cov[np.ix_(given, given)]))
            m, c = mean[dep] + k.dot(x - mean[given]), cov[np.ix_(dep, dep)] - k.dot(cov[np.ix_(given, dep)])
        else:
            m, c = mean[dep], cov[np.ix_(dep, dep)]
        if (low >= up).any():
            return np.array([0.])
        if len(dep) == 1:
            s = np.sqrt(c[0, 0])
            return np.array([norm.cdf((up[0] - m[0]) / s) - norm.cdf((low[0] - m[0]) / s)])
        return np.array([mvn.mvnun(low, up, m, c, maxpts=20000 * len(dep), abseps=1e-6, releps=1e-6)[0]])

    robjects = types.ModuleType('rpy2.robjects')
    robjects.FloatVector = lambda v: np.asarray(v, dtype=float)
    robjects.IntVector = lambda v: np.asarray(v, dtype=int)
    robjects.Vector = robjects.Matrix = lambda v: np.asarray(v, dtype=float)
    robjects.pandas2ri = types.SimpleNamespace(activate=lambda: None)
    packages = types.ModuleType('rpy2.robjects.packages')
    packages.importr = lambda name: types.SimpleNamespace(pcmvnorm=pcmvnorm)
    rpy2 = types.ModuleType('rpy2')
    rpy2.robjects, robjects.packages = robjects, packages
    sys.modules.update({'rpy2': rpy2, 'rpy2.robjects': robjects, 'rpy2.robjects.packages': packages})


def module(name):
    if 'rpy2' not in sys.modules:
        _r_stand_ins()
    m = importlib.import_module(name)
    root = os.path.realpath(os.environ['VERIF_REPO']) + '/'
    assert os.path.realpath(m.__file__).startswith(root), m.__file__
    if name == 'experiments.utils':
        sys.modules.setdefault('utils', m)  # shap_linear is written to run from within its folder
    return m


def experiment(mod, cls, kw):
    module('experiments.utils')
    return getattr(module('experiments.' + mod), cls)(**kw)


def fitted(X, y, params, snap):
    """A regression tree; `snap` moves its thresholds onto the largest value that goes left."""
    from sklearn.tree import DecisionTreeRegressor
    m = DecisionTreeRegressor(**params).fit(X, y)
    t = m.tree_
    if snap:
        for i in range(t.node_count):
            if t.children_left[i] >= 0:
                v = X[:, t.feature[i]]
                t.threshold[i] = v[v <= t.threshold[i]].max()
    return m


def nodes(m):
    t = m.tree_
    return {'children_left': np.array(t.children_left), 'children_right': np.array(t.children_right),
            'features': np.array(t.feature), 'thresholds': np.array(t.threshold, dtype=float),
            'values': np.array(t.value[:, 0, :], dtype=float)}


def cond(e, m, x, S, algo, data, N):
    """E[tree | x_S] by one of the estimators."""
    kw = {'data': data}
    if N:
        kw['N'] = N
    return float(e.cond_exp_tree(x, m.tree_, S, algo=algo, **kw))


def dist(e, m, x, fx, S, algo, data, N):
    """E[(tree - fx)^2 | x_S] by one of the estimators."""
    return float(e.cond_dist_tree(x, fx, m.tree_, S, algo=algo, N=N, data=data))


def fn(mod, f, a):
    return getattr(module(mod), f)(*a)


def rebuilt(mod, m, X, y):
    """rebuild_tree on a fitted tree: node weights and values afterwards."""
    module(mod).rebuild_tree(0, m.tree_, X, y)
    t = m.tree_
    return np.array(t.weighted_n_node_samples), np.array(t.value[:, 0, 0]), nodes(m)


def rebuilt_acv(f, X, y):
    from acv_explainers.utils import rebuild_acvtree
    t = types.SimpleNamespace(**{k: np.array(v) for k, v in f.items()})
    rebuild_acvtree(0, t, X, y)
    return np.array(t.node_sample_weight), np.array(t.values)


def discretized(cols, num, cat):
    """quantile_discretizer and quantile_discretizer_byq on the same table."""
    import pandas as pd
    u = module('experiments.utils')
    df = pd.DataFrame({k: np.asarray(v) for k, v in cols.items()}, columns=list(cols))
    one, q = u.quantile_discretizer(df, num, cat)
    two = u.quantile_discretizer_byq(df, cat, q)
    return ([str(c) for c in one.columns], one.values.astype(float), {k: [[float(b) for b in p] for p in v] for k, v in q.items()},
            [str(c) for c in two.columns], two.values.astype(float))


def dataset(mod, num_weak, n, cardinality, mixing):
    """The generated data set and its three encodings."""
    u = module(mod)
    df, cov, w = u.return_main_dataset(num_weak, n, cardinality, mixing)
    i, ei = u.encode_as_int(df)
    g, eg = u.encode_as_magic_int(df)
    return {'columns': list(df.columns), 'y': df['y'].values.astype(int), 'z': df['z'].values.astype(float),
            'c': [str(v) for v in df['c']], 'weak': df[['x%d' % k for k in range(num_weak)]].values.astype(float),
            'cov': np.asarray(cov), 'w': np.asarray(w),
            'int': i['c'].values.astype(int), 'int_back': [str(v[0]) for v in ei.inverse_transform(i[['c']])],
            'magic': g['c'].values.astype(int), 'magic_back': [str(v[0]) for v in eg.inverse_transform(g[['c']])],
            'rest': bool((i.drop(columns='c') == df.drop(columns='c')).values.all() and
                         (g.drop(columns='c') == df.drop(columns='c')).values.all()),
            'names': [list(u.get_feature_names(df)), list(u.get_feature_names(df, include_c=False))],
            'c_values': [list(v) for v in u.return_c_values(cardinality)]}


def loaded(name, rows):
    """data_loading(name), and what its file says."""
    import csv
    m = module('acv_data.data_loader')
    df = m.data_loading(name)
    with open(os.path.join(os.path.dirname(m.__file__), 'telco_churn.csv')) as f:
        header, *lines = list(csv.reader(f))
    pick = [r % len(lines) for r in rows]
    show = lambda v: str(v) if isinstance(v, str) else float(v)  # noqa
    return list(df.columns), len(df), [([show(v) for v in df.iloc[i]], list(lines[i])) for i in pick], len(lines), header


def outputs(k):
    """All the estimates under the true model use of the tree: its number of outputs."""
    return types.SimpleNamespace(values=np.zeros((1, 1, k)))


def discrete(mean, cov, coefs, n, bins, depth, rows, subsets, shapley, size):
    """A forest of the dummies of the bins, its table over all combinations of bins, and what is estimated of it."""
    import itertools
    import pandas as pd
    from sklearn.ensemble import RandomForestRegressor
    from acv_explainers import ACVTree
    u = module('experiments.utils')
    d = len(mean)
    Z = np.random.multivariate_normal(mean, cov, size=n)
    frame = pd.DataFrame(Z, columns=['X%d' % v for v in range(d)])
    cat, q = u.quantile_discretizer(frame, bins + 1, [])
    y = Z.dot(coefs) + np.abs(Z[:, 0])
    m = RandomForestRegressor(n_estimators=2, max_depth=depth).fit(cat.values, y)
    q_arr = np.array([q['X%d' % v] for v in range(d)], dtype=float)
    C = [[v * bins + k for k in range(bins)] for v in range(d)]
    cells = list(itertools.product(range(-1, bins + 1), repeat=d))
    dummies = np.zeros((len(cells), d * bins))
    for j, cell in enumerate(cells):
        for v, k in enumerate(cell):
            if 0 <= k < bins:
                dummies[j, v * bins + k] = 1
    tree = ACVTree(m, cat.values.astype(float))
    X = cat.values[:rows].astype(float)
    mc = [np.asarray(u.mc_exp_tree_discretized(X, tree, S, q_arr, q, C, mean, cov, size)) for S in subsets]
    sv = np.asarray(u.tree_sv_exact_discretized(X, tree, q_arr, q, C, mean, cov, size)) if shapley else None
    where = [[int(np.argmax(x[v * bins:(v + 1) * bins])) for v in range(d)] for x in X]
    return X, q_arr, where, [list(c) for c in cells], m.predict(dummies), mc, sv


def stored(obj, how):
    """A copy of the explainer, by one of the ways there are."""
    import copy
    import pickle
    import shutil
    import tempfile
    if how == 'copy':
        return copy.copy(obj)
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how == 'pickle2':
        return pickle.loads(pickle.dumps(obj, 2))
    if how == 'pickle':
        return pickle.loads(pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))
    folder = tempfile.mkdtemp()
    try:
        name = os.path.join(folder, 'explainer')
        if how == 'joblib':
            import joblib
            joblib.dump(obj, name)
            return joblib.load(name)
        m = importlib.import_module('acv_explainers.utils' + ('_cr' if how == 'save_cr' else ''))
        m.save_model(obj, name)
        return m.load_model(name)
    finally:
        shutil.rmtree(folder)


def frame(obj, m, *a):
    """A method that returns a data frame: its column names and values."""
    f = getattr(obj, m)(*a)
    return [str(c) for c in f.columns], np.asarray(f.values, dtype=float)
