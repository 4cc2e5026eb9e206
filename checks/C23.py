"""C23: the toy experiments and the statistical helpers compute what they state."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.stats import multivariate_normal, norm

import gen
import oracle as O
import projected as P
from checks.common import Built, call, forest_case, interesting
from harness import Facet, Skip, Violation, close, expect_close

PROP = 'C23'
LIN = ['exp_linear', 'exp_syn', 'shap_linear']
GMM = {'exp_linear_gmm': 'ExperimentsLinearGMM', 'exp_linear_gmm_ohe': 'ExperimentsLinearGMMOhe'}
UTILS = ['acv_explainers.utils', 'experiments.utils']
N = 1500  # sample size of the Monte Carlo estimators
SIGMAS = 8.


def fn(f, *a, **k):
    s = {'op': 'fn', 'f': 'toys:' + f, 'a': list(a), 'k': {}}
    s.update(k)
    return s


def exp(m, *a, **k):
    return {'op': 'call', 'obj': 'e', 'm': m, 'a': list(a), 'k': k}


# ------------------------------------------------------------------ Gaussian laws
half = st.integers(-4, 4).map(lambda v: v / 2.)


@st.composite
def gauss(draw, d):
    a = draw(st.lists(st.lists(st.integers(-2, 2), min_size=d, max_size=d), min_size=d, max_size=d))
    return {'a': a, 'mean': draw(st.lists(half, min_size=d, max_size=d))}


def law(g):
    a = np.array(g['a'], dtype=float)
    return np.array(g['mean'], dtype=float), a.dot(a.T) / 4. + .5 * np.eye(len(a))


def conditional(mean, cov, T, S, x):
    """Mean and covariance of X_T given X_S = x_S, by way of the precision matrix of the variables involved."""
    S, T = list(S), list(T)
    q = T + S
    k = np.linalg.inv(cov[np.ix_(q, q)])
    t = len(T)
    c = np.linalg.inv(k[:t, :t]) if t else np.zeros((0, 0))
    return mean[T] - c.dot(k[:t, t:]).dot(x[S] - mean[S]), c


def expected(coefs, mean, cov, S, x):
    T = [v for v in range(len(mean)) if v not in S]
    z = np.array(x, dtype=float)[:len(mean)].copy()
    z[T] = conditional(mean, cov, T, S, z)[0]
    return float(np.dot(coefs, z))


def variance(coefs, mean, cov, S):
    T = [v for v in range(len(mean)) if v not in S]
    c = conditional(mean, cov, T, S, mean)[1]
    return float(np.asarray(coefs)[T].dot(c).dot(np.asarray(coefs)[T]))


def sampled(site, got, want, var, n=N):
    """A Monte Carlo mean of n draws (single precision inputs)."""
    if not abs(got - want) <= SIGMAS * np.sqrt(max(var, 0.) / n) + 1e-4 * (1 + abs(want)):
        raise Violation(site, '%r is too far from %r for %d draws (standard deviation %.3g)' % (got, want, n, np.sqrt(var)))


def shap(d, C, v):
    return O.shapley(O.groups(d, C), lambda S: np.array([v(sorted(S))]), d, (1, d))[0]


def subsets(draw, d, n):
    """Subsets of the variables, as lists in any order."""
    out = []
    for _ in range(n):
        p = list(draw(st.permutations(range(d))))
        out.append(p[:draw(st.integers(0, d))])
    return out


# ------------------------------------------------------------------ the linear model
@st.composite
def linear_case(draw):
    d = draw(st.integers(2, 4))
    return {'mod': draw(st.sampled_from(LIN)), 'd': d, 'law': draw(gauss(d)),
            'coefs': draw(st.lists(half, min_size=d, max_size=d)), 'x': draw(st.lists(half, min_size=d, max_size=d)),
            'C': draw(gen.coalitions(d)), 'S': subsets(draw, d, 2), 'seed': draw(st.integers(0, 10 ** 6))}


def start(c, cls='ExperimentsLinear', **k):
    return [{'op': 'seed', 'n': c['seed']}, fn('experiment', c['mod'], cls, dict(k, C=c['C']), id='e', discard=True)]


def linear(c, ctx):
    mean, cov = law(c['law'])
    d, coefs, x = c['d'], np.array(c['coefs']), np.array(c['x'])
    steps = start(c, mean=mean, cov=cov, coefs=coefs, n=6)
    steps += [exp('linear_shap', x), exp('linear_mar_shap', x)]
    for S in c['S']:
        steps += [exp('cond_exp_linear_model', x, S), exp('mar_exp_linear_model', x, S)]
    steps += [{'op': 'attr', 'obj': 'e', 'attr': 'data'}, {'op': 'attr', 'obj': 'e', 'attr': 'y_train'}]
    r = ctx.values(steps)[2:]
    E = lambda S: expected(coefs, mean, cov, S, x)  # noqa
    A = lambda S: float(np.dot(coefs, np.where(np.isin(np.arange(d), S), x, mean)))  # noqa
    expect_close('linear_shap', r[0], shap(d, c['C'], E), 1e-7, 1e-7)
    expect_close('linear_mar_shap', r[1], shap(d, c['C'], A), 1e-7, 1e-7)
    for i, S in enumerate(c['S']):
        expect_close('cond_exp_linear_model', r[2 + 2 * i], E(S), 1e-7, 1e-7, what='given %s' % S)
        expect_close('mar_exp_linear_model', r[3 + 2 * i], A(S), 1e-7, 1e-7, what='given %s' % S)
    data, y = r[-2:]
    if data.shape != (6, d):
        raise Violation('ExperimentsLinear', 'data of shape %s' % (data.shape,))
    expect_close('ExperimentsLinear', y, data.dot(coefs), 1e-7, 1e-7, what='outputs')
    ctx.label('module:' + c['mod'], 'groups' if c['C'] != [[]] else 'no groups')
    ctx.nontrivial = bool(np.count_nonzero(coefs) > 1 and np.abs(cov - np.diag(np.diag(cov))).max() > 0)


# ------------------------------------------------------------------ the mixture model
@st.composite
def gmm_case(draw):
    mod = draw(st.sampled_from(sorted(GMM)))
    d = draw(st.integers(2, 3))
    m = 3 if mod.endswith('ohe') else 2
    cats = list(range(d, d + m))
    pi = draw(st.sampled_from([[.25, .25, .5], [.2, .5, .3], [.4, .3, .3]]))
    key = draw(st.sampled_from('abc'))
    # three columns for two bits are read together; two columns may be separate variables
    C = [cats] if m == 3 or d == 3 or gen.chance(draw, 60) else [[]]
    if d == 3 and gen.chance(draw, 30):
        C = [draw(st.sampled_from([[0, 1], [2, 0], [1], [2, 1, 0]]))] + C
    S = []
    for s in subsets(draw, d, 2):
        k = [] if gen.chance(draw, 35) else draw(st.sampled_from([[d], [d + 1], [d, d + 1], [d + 1, d]] + [cats] * (m == 3)))
        s = s + k
        S.append(list(draw(st.permutations(s))))
    mar = [] if gen.chance(draw, 50) else list(draw(st.permutations(cats)))
    mar = list(draw(st.permutations(draw(st.lists(st.integers(0, d - 1), unique=True)) + mar)))
    return {'mod': mod, 'd': d, 'm': m, 'mar': mar, 'drawn': gen.chance(draw, 70), 'laws': [draw(gauss(d)) for _ in range(3)], 'pi': pi, 'key': key, 'C': C, 'S': S,
            'coefs': [draw(st.lists(half, min_size=d, max_size=d)) for _ in range(3)],
            'x': draw(st.lists(half, min_size=d, max_size=d)), 'seed': draw(st.integers(0, 10 ** 6))}


class Mixture(object):
    def __init__(self, c):
        self.d, self.m = c['d'], c['m']
        self.keys = 'abc'
        self.laws = [law(g) for g in c['laws']]
        self.pi, self.coefs = c['pi'], [np.array(v) for v in c['coefs']]
        e = np.eye(3)[:, :self.m]
        e[2] = 0.
        self.code = e
        self.x = np.concatenate([c['x'], self.code['abc'.index(c['key'])]])
        self.kw = {'mean': {k: self.laws[i][0] for i, k in enumerate('abc')}, 'cov': {k: self.laws[i][1] for i, k in enumerate('abc')},
                   'coefs': {k: self.coefs[i] for i, k in enumerate('abc')}, 'pi': dict(zip('abc', self.pi)),
                   'n': 300, 'cat_index': list(range(self.d, self.d + self.m))}

    def posterior(self, S):
        return [v for v in S if v < self.d], posterior(self.pi, self.laws, self.code, S, self.x)

    def given(self, S):
        num, w = self.posterior(S)
        return float(sum(w[i] * expected(self.coefs[i], *self.laws[i], num, self.x) for i in range(3) if w[i] > 0))

    def marginal(self, S):
        """Mean and variance of the output when the variables out of S are drawn whatever x_S (S holds the category or not)."""
        own = [i for i in range(3) if np.array_equal(self.code[i], self.x[self.d:])][0]
        T = [v for v in range(self.d) if v not in S]
        mu, va = [], []
        for i, (mean, cov) in enumerate(self.laws):
            a = self.coefs[own if len([v for v in S if v >= self.d]) else i]
            z = self.x[:self.d].copy()
            z[T] = mean[T]
            mu.append(a.dot(z))
            va.append(a[T].dot(cov[np.ix_(T, T)]).dot(a[T]))
        mu, va, w = np.array(mu), np.array(va), np.array(self.pi)
        return float(w.dot(mu)), float(w.dot(va + mu ** 2) - w.dot(mu) ** 2)

    def spread(self, S):
        num, w = self.posterior(S)
        mu = [expected(self.coefs[i], *self.laws[i], num, self.x) for i in range(3)]
        va = [variance(self.coefs[i], *self.laws[i], num) for i in range(3)]
        return float(sum(w[i] * (va[i] + mu[i] ** 2) for i in range(3)) - sum(w[i] * mu[i] for i in range(3)) ** 2)

    def f(self, x):
        i = [i for i in range(3) if np.array_equal(self.code[i], x[self.d:])][0]
        return float(self.coefs[i].dot(x[:self.d]))


def gmm(c, ctx):
    M = Mixture(c)
    d, x = c['d'], M.x
    steps = start(c, GMM[c['mod']], **M.kw)
    steps += [exp('linear_gmm_shap', x), exp('linear_gmm', x), exp('linear_gmm_batch', np.array([x, x])),
              {'op': 'attr', 'obj': 'e', 'attr': 'data'}, {'op': 'attr', 'obj': 'e', 'attr': 'y_train'}]
    ohe = c['m'] == 3
    steps.append(exp('mar_exp_linear_mc', x, c['mar'], **({} if ohe else {'N': N})))
    drawn = c['drawn'] and not ohe and d == 2 and c['C'] != [[]]
    if drawn:
        steps += [exp('linear_gmm_shap', x, True, 200), exp('linear_gmm_mar_shap', x, N=200)]
    for S in c['S']:
        num = [v for v in S if v < d]
        steps += [exp('cond_exp_linear_gmm', x, S), exp('cond_exp_monte_carlo_linear', x, S, N),
                  exp('cond_exp_linear_y_set', x, c['key'], num), exp('mar_exp_linear_y_set', x, c['key'], num)]
    if c['mod'] == 'exp_linear_gmm':
        steps += [fn('frame', ('__ref__', 'e'), 'cond_data_monte_carlo_gen', None, x, S, N) for S in c['S']]
    r = ctx.values(steps)[2:]
    expect_close('linear_gmm_shap', r[0], shap(d + c['m'], c['C'], M.given), 1e-7, 1e-7)
    expect_close('linear_gmm', [r[1]] + list(r[2]), [M.f(x)] * 3)
    data, y = r[3:5]
    if data.shape != (300, d + c['m']):
        raise Violation('gen_data', 'data of shape %s' % (data.shape,))
    expect_close('gen_data', y, [M.f(z) for z in data], 1e-7, 1e-7, what='outputs')
    mu, va = M.marginal(c['mar'])
    sampled('mar_exp_linear_mc given %s' % c['mar'], r[5], mu, va, 50000 if ohe else N)
    at = 6
    if drawn:  # each value is a mean of differences of two samples of 200
        D = d + c['m']
        top = [2 * max(f(S) for r_ in range(D + 1) for S in itertools.combinations(range(D), r_) if sum(v >= d for v in S) in (0, c['m']))
               for f in (M.spread, lambda S: M.marginal(S)[1])]
        for site, got, want, v in (('linear_gmm_shap(monte_carlo)', r[6], shap(D, c['C'], M.given), top[0]),
                                   ('linear_gmm_mar_shap', r[7], shap(D, c['C'], lambda S: M.marginal(S)[0]), top[1])):
            for g_, w_ in zip(np.ravel(got), np.ravel(want)):
                sampled(site, float(g_), float(w_), v, 200)
        ctx.label('drawn')
        at = 8
    k = 'abc'.index(c['key'])
    for i, S in enumerate(c['S']):
        g = r[at + 4 * i:at + 4 + 4 * i]
        num = [v for v in S if v < d]
        expect_close('cond_exp_linear_gmm', g[0], M.given(S), 1e-7, 1e-7, what='given %s' % S)
        sampled('cond_exp_monte_carlo_linear given %s' % S, g[1], M.given(S), M.spread(S))
        expect_close('cond_exp_linear_y_set', g[2], expected(M.coefs[k], *M.laws[k], num, x), 1e-7, 1e-7, what='given %s' % num)
        z = np.where(np.isin(np.arange(d), num), x[:d], M.laws[k][0])
        expect_close('mar_exp_linear_y_set', g[3], M.coefs[k].dot(z), 1e-7, 1e-7, what='given %s' % num)
        if c['mod'] == 'exp_linear_gmm':
            drawn_given(M, S, *r[at + 4 * len(c['S']) + i])
    ctx.label('module:' + c['mod'], 'groups' if c['C'] != [[]] else 'no groups')
    ctx.nontrivial = any(0 < len(S) < d + c['m'] for S in c['S'])


def drawn_given(M, S, names, rows):
    """Rows drawn given x_S: a sample of the conditional law, the columns in order."""
    site, d, D = 'cond_data_monte_carlo_gen given %s' % S, M.d, M.d + M.m
    if names != [str(v) for v in range(D)]:
        raise Violation(site, 'columns %s' % names)
    if rows.shape[0] != N and not set(range(d)) <= set(S):  # a law without spread may be given by one row
        raise Violation(site, '%d rows for %d' % (rows.shape[0], N))
    if not np.allclose(rows[:, S], M.x[S], 1e-6, 1e-6):
        raise Violation(site, 'rows off x_S: %.300r, x %r' % (rows[:3], M.x))
    num, w = M.posterior(S)
    own = (rows[:, None, d:] == M.code).all(axis=2)
    if not (own.sum(axis=1) == 1).all():
        raise Violation(site, 'not a category: %.300r' % rows[:3, d:])
    for i in range(3):
        sampled(site + ': category %d' % i, own[:, i].mean(), w[i], w[i] * (1 - w[i]), len(rows))
        T = [v for v in range(d) if v not in num]
        part = rows[own[:, i]]
        if T and len(part) > 30:
            mu, cov = conditional(M.laws[i][0], M.laws[i][1], T, num, M.x[:d])
            for a, v in enumerate(T):
                sampled(site + ': mean of %d in category %d' % (v, i), part[:, v].mean(), mu[a], cov[a, a], len(part))
                for b in range(a + 1):  # products of centered Gaussians: variance c_aa c_bb + c_ab^2
                    z = (part[:, v] - mu[a]) * (part[:, T[b]] - mu[b])
                    sampled(site + ': covariance of %d, %d in category %d' % (v, T[b], i), z.mean(), cov[a, b], cov[a, a] * cov[b, b] + cov[a, b] ** 2, len(part))


# ------------------------------------------------------------------ trees
ALGOS = {'exp_linear': {'shap': 'path', 'plugin': 'leaf', 'plugin_interventional': 'marginal', 'plugin_interventionalv2': 'marginal',
                        'exact': 'gauss', 'exact_v1': 'gauss', 'monte_carlo': 'mc', 'monte_carlo_interventional': 'mc_mar'},
         'exp_linear_gmm': {'shap': 'path', 'plugin_v1': 'compatible', 'plugin': 'leaf', 'plugin_interventional': 'marginal',
                            'plugin_interventionalv2': 'marginal', 'monte_carlo': 'mc', 'monte_carlo_interventional': 'mc_mar'},
         'exp_linear_gmm_ohe': {'shap': 'path', 'plugin': 'compatible', 'plugin_v_2': 'leaf', 'plugin_interventional': 'marginal',
                                'monte_carlo': 'mc', 'monte_carlo_interventional': 'mc_mar'}}
ALGOS['exp_syn'] = ALGOS['exp_linear']
ALGOS['shap_linear'] = {{'plugin_interventional': 'plugin_intv', 'plugin_interventionalv2': 'plugin_intv2'}.get(k, k): v
                        for k, v in ALGOS['exp_linear'].items()}


@st.composite
def tree_case(draw):
    mod = draw(st.sampled_from(LIN + sorted(GMM)))
    gm = mod in GMM
    wide = not gm and gen.chance(draw, 20)
    d = 2 if gm else draw(st.integers(11, 12)) if wide else draw(st.integers(2, 4))
    c = {'mod': mod, 'wide': wide, 'd': d, 'm': 0 if not gm else 3 if mod.endswith('ohe') else 2, 'seed': draw(st.integers(0, 10 ** 6)),
         'laws': [draw(gauss(d)) for _ in range(3 if gm else 1)], 'depth': draw(st.integers(1, 4)), 'snap': draw(st.booleans()), 'state': draw(st.integers(0, 99))}
    n = draw(st.integers(4, 20))
    c['data'] = draw(gen.rows(n, n, d))
    c['keys'] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)) if gm else [0] * n
    c['y'] = draw(st.lists(st.integers(-8, 8).map(lambda v: v / 4.), min_size=n, max_size=n))
    c['row'] = draw(st.integers(0, n - 1))
    D = d + c['m']
    c['C'] = [[]] if wide else [[d, d + 1] + [d + 2] * (c['m'] == 3)] if gm and (c['m'] == 3 or gen.chance(draw, 50)) \
        else draw(gen.coalitions(D))
    c['S'] = subsets(draw, D, 2)
    algos = sorted(ALGOS[mod])
    c['algo'] = draw(st.lists(st.sampled_from(algos), min_size=2, max_size=2))
    if wide:
        c['algo'][0] = draw(st.sampled_from(['monte_carlo', 'monte_carlo_interventional']))
    for a, S in zip(c['algo'], c['S']):
        if c['m'] == 3 and ALGOS[mod][a].startswith('mc') and d + 2 in S and sum(v >= d for v in S) < 3:  # the last column is always zero: no value of its own
            S[:] = [v for v in S if v < d] + list(draw(st.permutations(range(d, D)))) * gen.chance(draw, 50)
    exact = [a for a in algos if ALGOS[mod][a] in ('path', 'leaf', 'marginal', 'compatible')]
    c['shap'] = draw(st.sampled_from(exact))
    c['dist'] = draw(st.sampled_from(['plugin', 'plugin2', 'monte_carlo'])) if mod == 'exp_linear_gmm' else ''
    c['fx'], c['own'] = draw(half), gen.chance(draw, 30)
    return c


def gaussian_box(b, T, m, c):
    """Probability of the box b on the variables T, of law (m, c)."""
    if any(b[v, 0] >= b[v, 1] for v in T):
        return 0.
    if not T:
        return 1.
    if len(T) == 1:
        s = np.sqrt(c[0, 0])
        return norm.cdf((b[T[0], 1] - m[0]) / s) - norm.cdf((b[T[0], 0] - m[0]) / s)
    p = 0.  # inclusion and exclusion over the corners
    for up in itertools.product((0, 1), repeat=len(T)):
        z = np.array([b[v, u] for v, u in zip(T, up)])
        if (z == -np.inf).any():
            continue
        fin = [i for i in range(len(T)) if z[i] < np.inf]
        q = 1. if not fin else float(multivariate_normal(m[fin], c[np.ix_(fin, fin)]).cdf(z[fin]))
        p += (-1) ** (len(T) - sum(up)) * q
    return p


def posterior(pi, laws, code, S, x):
    """Weights of the components given x_S."""
    d = len(laws[0][0])
    num, cat = [v for v in S if v < d], [v for v in S if v >= d]
    w = np.array([pi[i] * (multivariate_normal(m[num], k[np.ix_(num, num)]).pdf(x[num]) if num else 1.) *
                  all(code[i, v - d] == x[v] for v in cat) for i, (m, k) in enumerate(laws)])
    if w.sum() < 1e-200:
        raise Skip()
    return w / w.sum()


class Game(object):
    """Conditional expectations of one tree, by the definition of each estimator."""

    def __init__(self, t, data, x, laws, pi, code):
        self.t, self.data, self.x, self.laws, self.pi, self.code = t, data, x, laws, pi, code
        self.d = len(x)
        self.lv = [(b, float(v[0])) for b, v in O.leaves(t, self.d)]
        self.iD = [O.inside(b, data) for b, _ in self.lv]
        self.n = [int(i.all(axis=1).sum()) for i in self.iD]
        self.ix = [O.inside(b, x[None])[0] for b, _ in self.lv]

    def value(self, kind, S):
        S = list(S)
        T = [v for v in range(self.d) if v not in S]
        if kind == 'path':
            return self.path(S)
        ok = [k for k in range(len(self.lv)) if self.ix[k][S].all()]
        if kind == 'compatible':
            return sum(self.n[k] * self.lv[k][1] for k in ok) / float(sum(self.n[k] for k in ok))
        out = 0.
        for k in ok:
            if kind == 'leaf':
                p = self.n[k] / float(self.iD[k][:, S].all(axis=1).sum())
            elif kind == 'marginal':
                p = self.iD[k][:, T].all(axis=1).mean()
            else:
                p = self.box(self.lv[k][0], S, T, kind)
            out += p * self.lv[k][1]
        return out

    def box(self, b, S, T, kind):
        """Probability of the box on T, given x_S or not, under the mixture of the laws."""
        d = len(self.laws[0][0])
        given, w = kind in ('gauss', 'mc'), np.array(self.pi)
        num = [v for v in T if v < d]
        if given:
            w = posterior(self.pi, self.laws, self.code, S, self.x)
        p = 0.
        for i, (mean, cov) in enumerate(self.laws):
            if w[i] > 0 and all(b[v, 0] < self.code[i, v - d] <= b[v, 1] for v in T if v >= d):
                p += w[i] * gaussian_box(b, num, *conditional(mean, cov, num, [v for v in S if v < d] if given else [], self.x))
        return p

    def path(self, S):
        t = self.t

        def rec(i, rows):
            if t['children_left'][i] < 0:
                return float(t['values'][i][0])
            f, th = t['features'][i], t['thresholds'][i]
            left = rows[:, f] <= th
            if f in S:
                go = self.x[f] <= th
                return rec(t['children_left'][i] if go else t['children_right'][i], rows[left == go])
            return (left.sum() * rec(t['children_left'][i], rows[left]) +
                    (~left).sum() * rec(t['children_right'][i], rows[~left])) / float(len(rows))
        return rec(0, self.data)


def trees(c, ctx):
    d, m = c['d'], c['m']
    D = d + m
    laws, code, pi = [law(g) for g in c['laws']], np.zeros((1, 0)), [1.]
    data = np.array(c['data'], dtype=float).reshape(-1, d)
    if m:
        code = np.eye(3)[:, :m].copy()
        code[2] = 0.
        data = np.concatenate([data, code[np.array(c['keys'])]], axis=1)
        pi = [.3, .2, .5]
        kw = {'mean': dict(zip('abc', [v for v, _ in laws])), 'cov': dict(zip('abc', [v for _, v in laws])),
              'coefs': {k: np.ones(d) for k in 'abc'}, 'pi': dict(zip('abc', pi)), 'n': 300, 'cat_index': list(range(d, D))}
        cls = GMM[c['mod']]
    else:
        kw, cls = {'mean': laws[0][0], 'cov': laws[0][1], 'coefs': np.ones(d), 'n': 5}, 'ExperimentsLinear'
    data, x, y = np.ascontiguousarray(data), data[c['row']].copy(), np.array(c['y'])
    params = {'max_depth': c['depth'], 'random_state': c['state']}
    ref = ('__ref__', 'e'), ('__ref__', 'm')
    steps = start(c, cls, **kw) + [fn('fitted', data, y, params, c['snap'], id='m', discard=True), fn('nodes', ref[1])]
    given = data
    if c['own']:  # the rows of the experiment are those used when none are given
        steps.append({'op': 'setattr', 'obj': 'e', 'attr': 'data', 'v': data})
        given = None
    for a, S in zip(c['algo'], c['S']):
        mc = ALGOS[c['mod']][a].startswith('mc')
        steps.append(fn('cond', *ref, x, S, a, given, N if mc and m < 3 else 0))
    if c['dist']:
        steps.append(fn('dist', *ref, x, c['fx'], c['S'][0], c['dist'], given, N))
    if not c['wide']:  # Shapley values go through every subset
        steps.append(exp('tree_shap', ref[1], x, c['shap'], data=given))
    r = ctx.values(steps)[3:]
    t = r.pop(0)
    if c['own']:
        r.pop(0)
    r.insert(0, t)
    g = Game(t, data, x, laws, pi, code)
    for a, S, got in zip(c['algo'], c['S'], r[1:3]):
        kind = ALGOS[c['mod']][a]
        want = g.value(kind, S)
        site = '%s.cond_exp_tree(%s)' % (c['mod'], a)
        if kind.startswith('mc'):
            vs = [v for _, v in g.lv]
            sampled('%s given %s' % (site, S), got, want, (max(vs) - min(vs)) ** 2 / 4., 50000 if m == 3 else N)
        elif kind == 'gauss':
            expect_close(site, got, want, 1e-3, 1e-3, what='given %s' % S)
        else:
            expect_close(site, got, want, what='given %s' % S)
        ctx.label(kind)
    if c['dist']:
        h = Game(t, data, x, laws, pi, code)
        h.lv = [(b, (v - c['fx']) ** 2) for b, v in g.lv]
        S, site = c['S'][0], 'cond_dist_tree(%s)' % c['dist']
        if c['dist'] == 'monte_carlo':
            vs = [v for _, v in h.lv]
            sampled('%s given %s' % (site, S), r[3], h.value('mc', S), (max(vs) - min(vs)) ** 2 / 4.)
        else:
            lv, h.lv = h.lv, [(b, 1.) for b, _ in h.lv]
            total, h.lv = h.value('leaf', S), lv
            expect_close(site, r[3], h.value('leaf', S) / total, 1e-7, 1e-7, what='given %s' % S)
        ctx.label('distance')
    if not c['wide']:
        kind = ALGOS[c['mod']][c['shap']]
        expect_close('%s.tree_shap(%s)' % (c['mod'], c['shap']), r[-1], shap(D, c['C'], lambda S: g.value(kind, S)))
    ctx.label('module:' + c['mod'], *['wide'] * c['wide'])
    ctx.nontrivial = len(g.lv) > 2 and any(0 < len(S) < D for S in c['S'])


# ------------------------------------------------------------------ the reference values of the experiments
@st.composite
def truth_case(draw):
    c = draw(forest_case(['sk_clf', 'sk_reg', 'dict'], d_lo=2, d_hi=4, trees=2, depth=3, full=80))
    d = c['d']
    kinds = ['path', 'single', 'shapley', 'plugin', 'active', 'law']
    if c['form'] == 'sk_clf' and gen.chance(draw, 65):
        kinds = ['sdp', 'importance', 'swing']
    c.update(kind=draw(st.sampled_from(kinds)), C=draw(gen.coalitions(d)), point=draw(st.lists(st.integers(0, gen.G), min_size=d, max_size=d)),
             S=subsets(draw, d, 2), seed=draw(st.integers(0, 10 ** 6)), law=draw(gauss(d)), unit=0)
    c['acv'] = []
    for _ in c['X']:
        p = list(draw(st.permutations(range(d))))
        k = draw(st.integers(1, d))
        c['acv'].append([p[:k], p[k:]])
    c['level'] = draw(st.sampled_from([.5, .9]))
    return c


def paths(b, S):
    """Path-dependent expectation of the forest: the cover of the nodes is that of the model."""
    out = []
    for x in b.X:
        tot = 0.
        for t in b.trees:
            w = np.array(t['node_sample_weight'], dtype=float)

            def rec(i):
                L, R = t['children_left'][i], t['children_right'][i]
                if L < 0:
                    return np.asarray(t['values'][i], dtype=float)
                if t['features'][i] in S:
                    return rec(L if x[t['features'][i]] <= t['thresholds'][i] else R)
                return (w[L] * rec(L) + w[R] * rec(R)) / (w[L] + w[R])
            tot = tot + rec(0)
        out.append(tot)
    return np.array(out)


def truth(c, ctx):
    """The experiments' own estimates, on inputs so concentrated that every draw gives the same answer."""
    b = Built(c)
    d, X, n = c['d'], b.X, len(b.X)
    mean = np.array(c['point'], dtype=float) + .125  # off every threshold
    cov = 1e-12 * np.eye(d)
    D = 3
    u = lambda f, *a: fn('fn', 'experiments.utils', f, list(a))  # noqa
    A = ('__ref__', 'a')
    kind, S2 = c['kind'], [np.array(S, dtype=np.int64) for S in c['S']]
    tail = [A, mean, cov, D]
    if kind == 'path':
        steps = [u('shap_cond_exp', X, S, A) for S in S2]
    elif kind == 'single':
        steps = [u('mc_cond_exp', X, S, *tail) for S in S2]
    elif kind == 'law':
        steps = [u('mc_cond_exp', X[:1], S, A, *law(c['law']), N) for S in S2]
    elif kind == 'shapley':
        steps = [u('tree_sv_exact', X, c['C'], *tail)]
    elif kind == 'plugin':
        subs = [list(s) for r in range(d + 1) for s in itertools.combinations(range(d), r)]
        steps = [u('pytree_shap_plugin', X, b.data, c['C'], A)] + \
            [call('compute_exp_normalized', X=X, S=np.array(s, dtype=np.int64), data=b.data) for s in subs]
    elif kind == 'active':
        steps = [u('tree_sv_acv', X, A, [v for v, _ in c['acv']], [v for _, v in c['acv']], mean, cov, D)]
    elif kind == 'sdp':
        steps = [u('sdp_true', X, S, *tail) for S in S2]
    elif kind == 'importance':
        steps = [u('importance_sdp_clf_true', X, *tail, [[]], 1, c['level'])]
    else:
        steps = [u('swing_tree_shap_clf_true', X, c['C'], *tail, c['level'])]
    r = b.run(ctx, [{'op': 'seed', 'n': c['seed']}] + steps)[1:]

    def at(S):
        """The model where the variables out of S are moved to the point."""
        Z = np.tile(mean, (n, 1))
        Z[:, list(S)] = X[:, list(S)]
        return O.predict(b.trees, Z)

    k = at([]).shape[1]
    if k > 1 and kind in ('sdp', 'importance', 'swing'):
        for s in (s for q in range(d + 1) for s in itertools.combinations(range(d), q)):
            z = np.sort(at(s), axis=1)
            if (z[:, -1] - z[:, -2] < 1e-9).any():
                raise Skip()
    same = lambda S: (np.argmax(at(S), axis=1) == np.argmax(at(range(d)), axis=1)) * 1.  # noqa
    if kind == 'path':
        for S, got in zip(c['S'], r):
            expect_close('shap_cond_exp', got, paths(b, S), what='given %s' % S)
    elif kind == 'single':
        for S, got in zip(c['S'], r):
            expect_close('mc_cond_exp', got, at(S), what='given %s' % S)
    elif kind == 'law':
        m, cv = law(c['law'])
        for S, got in zip(c['S'], r):
            T = [v for v in range(d) if v not in S]
            mu, va = conditional(m, cv, T, list(S), X[0])
            want, spread = 0., 0.
            for t in b.trees:
                lv = O.leaves(t, d)
                for bx, v in lv:
                    if O.inside(bx, X[:1])[0][list(S)].all():
                        want = want + gaussian_box(bx, T, mu, va) * v
                vs = np.array([v for _, v in lv])
                spread = spread + (vs.max(axis=0) - vs.min(axis=0))
            for g_, w_, s_ in zip(np.ravel(got), np.ravel(want), np.ravel(spread)):
                sampled('mc_cond_exp given %s' % S, float(g_), float(w_), s_ ** 2 / 4.)
    elif kind == 'shapley':
        expect_close('tree_sv_exact', r[0], O.shapley(O.groups(d, c['C']), at, d, (n, d, k)))
    elif kind == 'plugin':
        v = {frozenset(s): g for s, g in zip(subs, r[1:])}
        expect_close('pytree_shap_plugin', r[0], O.shapley(O.groups(d, c['C']), lambda S: v[frozenset(S)], d, (n, d, k)))
    elif kind == 'active':
        want = np.zeros((n, d, k))
        for i, (s, rest) in enumerate(c['acv']):
            phi = O.shapley([[v] for v in s], lambda S: at(list(S) + rest if S else [])[i:i + 1], d, (1, d, k))
            want[i] = phi[0]
        expect_close('tree_sv_acv', r[0], want)
    elif kind == 'sdp':
        for S, got in zip(c['S'], r):
            expect_close('sdp_true', got, same(S), what='given %s' % S)
    elif kind == 'swing':
        m = O.groups(d, c['C'])
        g = lambda S: (same(S) >= c['level']) * 1.  # noqa
        want = np.zeros((n, d))
        for i in range(n):
            want[i] = O.shapley(m, lambda S: np.array([g(S)[i]]), d, (1, d))[0]
        expect_close('swing_tree_shap_clf_true', r[0][0], want)
        expect_close('swing_tree_shap_clf_true', r[0][1].sum(axis=2), want, what='signed parts')
        expect_close('swing_tree_shap_clf_true', r[0][2].sum(axis=2), np.tile(2. ** (len(m) - 1), (n, d)), what='number of swings')
    else:
        freq, star, size, sdp = r[0]
        total = np.zeros(d)
        for i in range(n):
            s = [int(v) for v in star[i][:int(size[i])]]
            if len(set(s)) != len(s) or not all(0 <= v < d for v in s):
                raise Violation('importance_sdp_clf_true', 'row %d: explanation %s of size %s' % (i, star[i].tolist(), size[i]))
            val = 1. if len(s) == d else same(s)[i]
            if val != sdp[i]:
                raise Violation('importance_sdp_clf_true', 'row %d: %s has the probability %s, not %s' % (i, s, val, sdp[i]))
            for q in range(1, len(s) if sdp[i] >= c['level'] else 1 + int(np.ceil(d / 2.))):
                for t in itertools.combinations(range(d), q):
                    if same(t)[i] >= c['level']:
                        raise Violation('importance_sdp_clf_true', 'row %d: %s is smaller than %s and sufficient' % (i, t, s))
            if sdp[i] >= c['level']:
                total[s] += 1
        expect_close('importance_sdp_clf_true', freq, total / n, what='importance')
    ctx.label(kind, *['groups'] * (c['C'] != [[]]))
    ctx.nontrivial = interesting(b)


# ------------------------------------------------------------------ helpers
@st.composite
def tool_case(draw):
    kind = draw(st.sampled_from(['mvn', 'rebuild', 'percentile', 'bins', 'dataset', 'metric', 'clusters', 'rules', 'loading']))
    c = {'kind': kind, 'mod': draw(st.sampled_from(UTILS)), 'seed': draw(st.integers(0, 10 ** 6))}
    if kind == 'mvn':
        d = draw(st.integers(2, 5))
        p = list(draw(st.permutations(range(d))))
        k = draw(st.integers(0, d - 1))
        c.update(law=draw(gauss(d)), x=draw(st.lists(half, min_size=d, max_size=d)), S=p[:k], T=sorted(p[k:]) if k == 0 else p[k:])
    elif kind == 'rebuild':
        d = draw(st.integers(1, 4))
        n = draw(st.integers(2, 16))
        c.update(d=d, data=draw(gen.rows(n, n, d)), depth=draw(st.integers(1, 4)), snap=draw(st.booleans()),
                 y=draw(st.lists(half, min_size=n, max_size=n)), new=draw(gen.rows(1, 20, d)))
        c['ynew'] = draw(st.lists(half, min_size=len(c['new']), max_size=len(c['new'])))
    elif kind == 'percentile':
        n = draw(st.integers(1, 12))
        c.update(a=draw(st.lists(st.integers(-20, 20).map(lambda v: v / 4.), min_size=n, max_size=n, unique=True)),
                 w=draw(st.lists(st.sampled_from([0., .25, .5, 1., 2., 3.]), min_size=n, max_size=n)),
                 q=sorted(draw(st.lists(st.integers(0, 100), min_size=3, max_size=3))),
                 perm=list(draw(st.permutations(range(n)))), plain=draw(st.booleans()))
        if not any(c['w']):
            c['w'][0] = 1.
    elif kind == 'bins':
        n = draw(st.integers(2, 15))
        cols = {k: draw(st.lists(half, min_size=n, max_size=n)) for k in 'uvw'[:draw(st.integers(1, 3))]}
        c.update(cols=cols, num=draw(st.integers(2, 6)), cat=[k for k in cols if gen.chance(draw, 20)])
        if len(c['cat']) == len(cols):
            c['cat'] = c['cat'][1:]
    elif kind == 'dataset':
        c.update(weak=draw(st.integers(1, 4)), n=draw(st.integers(60, 120)), card=draw(st.sampled_from([2, 4, 10, 50, 100])),
                 mix=draw(st.sampled_from([.025, .5, 2.])))
    elif kind == 'metric':
        d, n = draw(st.integers(1, 5)), draw(st.integers(1, 6))
        b = st.lists(st.lists(st.integers(0, 1), min_size=d, max_size=d), min_size=n, max_size=n)
        c.update(truth=draw(b), score=draw(b))
    elif kind == 'loading':
        c.update(name=draw(st.sampled_from(['telco', 'telco', 'Telco', 'titanic', 'house_prices', ''])), rows=draw(
            st.lists(st.integers(0, 10 ** 5), min_size=5, max_size=5)))
    elif kind == 'clusters':
        d = draw(st.integers(2, 6))
        c.update(data=draw(gen.rows(6, 20, d)), dist=draw(st.sampled_from(['kendall', 'corr'])), d=d)
    else:
        d = draw(st.integers(1, 3))
        box = st.lists(st.integers(-2, 2), min_size=2 * d, max_size=2 * d)
        pool = draw(st.lists(box, min_size=1, max_size=4, unique_by=tuple))
        c.update(rules=[draw(st.sampled_from(pool)) for _ in range(draw(st.integers(1, 8)))], d=d,
                 unit=draw(st.sampled_from(gen.UNIT)), mod='acv_explainers.utils')
    return c


def mvn(c, ctx):
    mean, cov = law(c['law'])
    x, S, T = np.array(c['x']), c['S'], c['T']
    u = lambda f, *a: fn('fn', c['mod'], f, list(a))  # noqa
    r = ctx.values([{'op': 'seed', 'n': c['seed']}, u('condMVN', mean, cov, T, S, x[S]), u('marMVN', mean, cov, T, S, x[S]),
                    u('sampleMVN', N, mean, cov, T, S, x[S]), u('sampleMarMVN', N, mean, cov, T, S)])[1:]
    m, k = conditional(mean, cov, T, S, x)
    expect_close('condMVN', r[0][0], m, 1e-7, 1e-7, what='mean of %s given %s' % (T, S))
    expect_close('condMVN', r[0][1], k, 1e-7, 1e-7, what='covariance of %s given %s' % (T, S))
    expect_close('marMVN', r[1][0], mean[T])
    expect_close('marMVN', r[1][1], cov[np.ix_(T, T)])
    for site, z, mu, va in (('sampleMVN', r[2], m, k), ('sampleMarMVN', r[3], mean[T], cov[np.ix_(T, T)])):
        if z.shape != (N, len(T)):
            raise Violation(site, 'samples of shape %s' % (z.shape,))
        for i in range(len(T)):
            sampled(site, float(z[:, i].mean()), mu[i], va[i, i])
            for j in range(i + 1):  # the product of two Gaussians has variance at most 2 va va'
                sampled(site, float(((z[:, i] - mu[i]) * (z[:, j] - mu[j])).mean()), va[i, j], 2 * va[i, i] * va[j, j])
    ctx.nontrivial = bool(S) and np.abs(cov - np.diag(np.diag(cov))).max() > 0


def rebuild(c, ctx):
    d = c['d']
    X, y = np.array(c['data'], dtype=float).reshape(-1, d), np.array(c['y'])
    Z, q = np.array(c['new'], dtype=float).reshape(-1, d), np.array(c['ynew'])
    r = ctx.values([fn('fitted', X, y, {'max_depth': c['depth'], 'random_state': 0}, c['snap'], id='m', discard=True),
                    fn('rebuilt', c['mod'], ('__ref__', 'm'), Z, q)])[1]
    t = r[2]
    k = len(t['features'])
    f = dict(t, node_sample_weight=np.zeros(k), values=np.zeros((k, 1)))
    s = ctx.values([fn('rebuilt_acv', f, Z, q[:, None])])[0]
    rows = [None] * k
    rows[0] = np.ones(len(Z), dtype=bool)
    for i in range(k):
        w, v = float(rows[i].sum()), q[rows[i]].mean() if rows[i].any() else np.nan
        for site, gw, gv in (('rebuild_tree', r[0][i], r[1][i]), ('rebuild_acvtree', s[0][i], float(s[1][i, 0]))):
            if gw != w:
                raise Violation(site, 'node %d holds %s rows, not %s' % (i, gw, w))
            if w and not close(gv, v):
                raise Violation(site, 'node %d has the value %s, not %s' % (i, gv, v))
        if t['children_left'][i] >= 0:
            left = Z[:, t['features'][i]] <= t['thresholds'][i]
            rows[t['children_left'][i]], rows[t['children_right'][i]] = rows[i] & left, rows[i] & ~left
    ctx.nontrivial = k > 3


def percentiles(c, ctx):
    a, w = np.array(c['a']), np.ones(len(c['a'])) if c['plain'] else np.array(c['w'])
    p = c['perm']
    u = lambda *z: fn('fn', 'acv_explainers.utils', 'weighted_percentile', list(z))  # noqa
    got = ctx.values([u(a, q, *([] if c['plain'] else [w])) for q in c['q']] + [u(a[p], q, w[p]) for q in c['q']] +
                     [u(np.sort(a), q, w[np.argsort(a)], np.arange(len(a))) for q in c['q']])
    for k, q in enumerate(c['q'] * 3):
        lo, hi = P.percentile(a, w, q, slack=1e-4)
        if not lo - 1e-5 <= got[k] <= hi + 1e-5:
            raise Violation('weighted_percentile', 'the %d %% quantile of %s with weights %s is %r, not %r'
                            % (q, a.tolist(), w.tolist(), got[k], (lo, hi)))
    ctx.nontrivial = len(a) > 2


def bins(c, ctx):
    names, one, q, names2, two = ctx.values([fn('discretized', {k: np.array(v) for k, v in c['cols'].items()}, c['num'], c['cat'])])[0]
    i = 0
    edges = np.round(np.linspace(0, 1, num=c['num']), 2)
    for k, v in c['cols'].items():
        v = np.array(v)
        if k in c['cat']:
            for z in (one, two):
                expect_close('quantile_discretizer', z[:, i], v, what='column %s' % k)
            i += 1
            continue
        n = c['num'] - 1
        for site, z in (('quantile_discretizer', one), ('quantile_discretizer_byq', two)):
            z = z[:, i:i + n]
            if not np.array_equal(np.sort(z, axis=1)[:, -1:], np.ones((len(v), 1))) or not (z.sum(axis=1) == 1).all():
                raise Violation(site, 'column %s: a value lies in %s bins' % (k, z.sum(axis=1).tolist()))
            for j in range(n):
                lo, hi = np.quantile(v, edges[j]), np.quantile(v, edges[j + 1])
                expect_close('quantile_discretizer', q[k][j], [lo, hi], what='bounds of bin %d of %s' % (j, k))
                s = v[z[:, j] == 1]
                if len(s) and not ((s >= lo - 1e-9) & (s <= hi + 1e-9)).all():
                    raise Violation(site, 'bin %d of %s, [%s, %s], holds %s' % (j, k, lo, hi, s.tolist()))
        i += n
    if one.shape != (len(v), i) or two.shape != (len(v), i) or len(set(names)) != i or len(set(names2)) != i:
        raise Violation('quantile_discretizer', 'columns %s, %s' % (names, names2))
    ctx.nontrivial = c['num'] > 2


def dataset(c, ctx):
    r = ctx.values([{'op': 'seed', 'n': c['seed']}, fn('dataset', c['mod'], c['weak'], c['n'], c['card'], c['mix'])])[1]
    pos, neg = r['c_values']
    site = 'return_main_dataset'
    if len(pos) != c['card'] // 2 or len(neg) != c['card'] // 2 or len(set(pos + neg)) != 2 * (c['card'] // 2) or \
            any(v[-1] != 'A' for v in pos) or any(v[-1] != 'B' for v in neg):
        raise Violation('return_c_values', '%s, %s' % (pos, neg))
    if r['columns'] != ['y', 'c', 'z'] + ['x%d' % k for k in range(c['weak'])] or len(r['y']) != c['n']:
        raise Violation(site, 'columns %s, %d rows' % (r['columns'], len(r['y'])))
    if r['names'] != [r['columns'][1:], r['columns'][2:]]:
        raise Violation('get_feature_names', '%s' % (r['names'],))
    for y, v, z in zip(r['y'], r['c'], r['z']):
        if v not in pos + neg or bool(y) != (v in pos or z > 10):
            raise Violation(site, 'y = %s with c = %s and z = %s' % (y, v, z))
    if not r['rest']:
        raise Violation('encode', 'other columns than c changed')
    for site, k in (('encode_as_int', 'int'), ('encode_as_magic_int', 'magic')):
        if len(set(zip(r['c'], r[k].tolist()))) != len(set(r['c'])) or sorted(set(r[k].tolist())) != list(range(len(set(r['c'])))):
            raise Violation(site, 'the codes of %s are %s' % (r['c'], r[k].tolist()))
        if r[k + '_back'] != r['c']:
            raise Violation(site, 'decodes to %s, not %s' % (r[k + '_back'], r['c']))
    A = [v for v, s in zip(r['magic'].tolist(), r['c']) if s[-1] == 'A']
    B = [v for v, s in zip(r['magic'].tolist(), r['c']) if s[-1] == 'B']
    if A and B and max(A) >= min(B):
        raise Violation('encode_as_magic_int', 'codes of C+ %s and of C- %s' % (A, B))
    ctx.nontrivial = bool(A and B)


def metric(c, ctx):
    t, s = np.array(c['truth'], dtype=float), np.array(c['score'], dtype=float)
    r = ctx.values([fn('fn', 'experiments.utils', 'feature_performance_metric', [t, s])])[0]
    tpr = 100. * (t * s).sum(axis=1) / np.maximum(t.sum(axis=1), 1e-8)
    fdr = 100. * ((1 - t) * s).sum(axis=1) / np.maximum(s.sum(axis=1), 1e-8)
    expect_close('feature_performance_metric', r, [tpr.mean(), tpr.std(), fdr.mean(), fdr.std()], 1e-5, 1e-5)
    ctx.nontrivial = 0 < t.mean() < 1


def clusters(c, ctx):
    X = np.array(c['data'], dtype=float).reshape(-1, c['d'])
    if (X == X[0]).all(axis=0).any():
        raise Skip()
    r = ctx.values([fn('fn', c['mod'], 'compute_fcluster_bydistance', [X, c['dist']])])[0]
    if sorted(int(v) for g in r for v in g) != list(range(c['d'])) or not all(len(g) for g in r):
        raise Violation('compute_fcluster_bydistance', '%s is not a partition of the %d variables' % (r, c['d']))
    ctx.nontrivial = len(r) > 1


def rules(c, ctx):
    d, m = c['d'], len(c['rules'])
    R = gen.units(c, np.array(c['rules'], dtype=float).reshape(m, d, 2))
    out = np.arange(m) // 1.
    keys = [k.tobytes() for k in R]
    out = np.array([float(keys.index(k)) for k in keys])  # the same rule has the same output
    u = lambda f, *a: fn('fn', c['mod'], f, list(a))  # noqa
    fr, un, us = ctx.values([u('rules_frequency', R), u('unique_rules', R, out), u('unique_rules_s_star', R, [[int(v)] for v in out])])
    expect_close('rules_frequency', fr, [keys.count(k) / float(m) for k in keys])
    for site, (kept, o) in (('unique_rules', un), ('unique_rules_s_star', us)):
        kk = [k.tobytes() for k in np.asarray(kept)]
        if sorted(kk) != sorted(set(keys)):
            raise Violation(site, 'kept %s of %s' % (np.asarray(kept).tolist(), R.tolist()))
        want = [float(keys.index(k)) for k in kk]
        if [float(np.ravel(v)[0]) for v in o] != want:
            raise Violation(site, 'outputs %s, not %s, for %s' % (o, want, np.asarray(kept).tolist()))
    ctx.nontrivial = len(set(keys)) > 1


def loading(c, ctx):
    rows, r = None, ctx.prog([fn('loaded', c['name'], c['rows'])])[0]
    if c['name'] != 'telco':
        if r.get('exc', ('',))[0] != 'ValueError':
            raise Violation('data_loading', 'the unknown data set %r is not refused' % c['name'])
        return
    if 'exc' in r:
        raise Violation('data_loading', '%s: %s' % tuple(r['exc'][:2]))
    columns, n, rows, lines, header = r['ok']
    if columns != header or n != lines:
        raise Violation('data_loading', '%d rows of %s' % (n, columns))
    for got, want in rows:
        for g, w in zip(got, want):
            if g != w and not (g == g and w and close(float(g), float(w))):
                raise Violation('data_loading', 'a row reads %s, not %s' % (got, want))
    ctx.nontrivial = True


TOOLS = {'mvn': mvn, 'rebuild': rebuild, 'percentile': percentiles, 'bins': bins, 'dataset': dataset, 'metric': metric,
         'clusters': clusters, 'rules': rules, 'loading': loading}


def tools(c, ctx):
    TOOLS[c['kind']](c, ctx)
    ctx.label(c['kind'])


# ------------------------------------------------------------------ the generative models and what is computed from them
SYN = ['syn1', 'syn2', 'syn3', 'syn4', 'syn7', 'synamk']
USED = {'syn1': [0, 1], 'syn2': [2, 3, 4, 5], 'syn3': [6, 7, 8, 9]}


def prob0(kind, Z, coefs):
    """P(Y = 0 | Z) of a synthetic model; for syn7 the output itself."""
    out = []
    for z in np.asarray(Z, dtype=float):
        if kind == 'syn1':
            t = z[0] * z[1]
        elif kind == 'syn2':
            t = (z[2:6] ** 2).sum() - 4
        elif kind == 'syn3':
            t = -10 * np.sin(.2 * z[6]) + abs(z[7]) + z[8] + np.exp(-z[9]) - 2.4
        elif kind == 'syn4':
            t = z[0] * z[1] if z[4] < 0 else z[2] * z[3]
        elif kind == 'synamk':
            t = np.dot(coefs, z) - 4
        else:
            out.append(np.dot(coefs[:2], z[:2]) if z[4] < 0 else np.dot(coefs[2:4], z[2:4]))
            continue
        out.append(1 / (1 + np.exp(-t)))
    return np.array(out)


@st.composite
def generator_case(draw):
    kind = draw(st.sampled_from(['synthetic', 'synthetic', 'true', 'true', 'shapley', 'swing', 'discretized']))
    c = {'kind': kind, 'seed': draw(st.integers(0, 10 ** 6))}
    if kind == 'discretized':
        d = draw(st.integers(1, 3))
        c.update(d=d, law=draw(gauss(d)), coefs=draw(st.lists(half, min_size=d, max_size=d)), n=draw(st.integers(20, 60)),
                 bins=draw(st.integers(2, 3 if d == 3 else 4)), depth=draw(st.integers(1, 4)), S=subsets(draw, d, 2), rows=2,
                 shapley=d < 3 and gen.chance(draw, 50))
        return c
    if kind == 'synthetic':
        syn = draw(st.sampled_from(SYN))
        d = draw(st.integers(10, 12)) if syn == 'syn3' else draw(st.integers(6, 8))
        value, n = half, draw(st.integers(1, 5))
    else:
        sharp = kind != 'true' or draw(st.booleans())
        syn, d, n = 'syn4', draw(st.integers(5, 6 if kind == 'true' else 5)), draw(st.integers(1, 2))
        value = st.sampled_from([-7., 7.]) if sharp else half
        c.update(sharp=sharp, mean=draw(st.lists(value, min_size=d, max_size=d)), S=subsets(draw, d, 2),
                 yx=draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)), C=draw(gen.coalitions(d)),
                 level=draw(st.sampled_from([.5, .9])))
    c.update(syn=syn, d=d, X=[draw(st.lists(value, min_size=d, max_size=d)) for _ in range(n)],
             Z=draw(st.lists(half, min_size=d, max_size=d)), coefs=draw(st.lists(half, min_size=d, max_size=d)))
    return c


def synthetic(c, ctx):
    X, coefs, syn, d = np.array(c['X']), np.array(c['coefs']), c['syn'], c['d']
    other = np.tile(c['Z'], (len(X), 1))
    used = USED.get(syn)
    if used:
        other[:, used] = X[:, used]
    u = lambda f, *a: fn('fn', 'experiments.utils', f, list(a))  # noqa
    steps = start(dict(c, mod='exp_syn', C=[[]]), mean=np.zeros(d), cov=np.eye(d) / 4., coefs=coefs, n=4, data_type=syn)
    steps += [u('generate_y', X, syn, coefs), u('generate_y', other, syn, coefs)] + \
        [{'op': 'attr', 'obj': 'e', 'attr': a} for a in ('data', 'y_train', 'data_test', 'y_test')]
    if used:
        steps.append(u('generate_ground_truth', X, syn))
    r = ctx.values(steps)[2:]

    def check(site, got, Z):
        p = prob0(syn, Z, coefs)
        expect_close(site, got, p if syn == 'syn7' else np.stack([p, 1 - p], axis=1), 1e-9, 1e-9, what=syn)
    check('generate_y', r[0], X)
    check('exp_syn: y_train', r[3], r[2])
    check('exp_syn: y_test', r[5], r[4])
    if used:
        expect_close('generate_y', r[1], r[0], what='%s, other values of the variables that play no part' % syn)
        want = np.zeros(X.shape)
        want[:, used] = 1
        expect_close('generate_ground_truth', r[6], want, what=syn)
    ctx.label(syn)
    ctx.nontrivial = len(set(map(tuple, X.tolist()))) > 1


def generative(c, ctx):
    """Expectations under the true model of syn4 (and syn7), with a law of the inputs without spread."""
    X, mean, d, yx = np.array(c['X']), np.array(c['mean']), c['d'], np.array(c['yx'])
    cov, coefs, kind = 1e-12 * np.eye(d), np.array(c['coefs']), c['kind']
    u = lambda f, *a: fn('fn', 'experiments.utils', f, list(a))  # noqa
    n, D = len(X), 2 if c['sharp'] else N
    T = ('__ref__', 't')
    steps = [{'op': 'seed', 'n': c['seed']}, fn('outputs', 1, id='t', discard=True)]

    def at(S, i):
        z = mean.copy()
        z[list(S)] = X[i][list(S)]
        return z
    for i in range(n):  # the switch of the model must not be decided by the spread
        if abs(X[i][4]) < 1e-3 or abs(mean[4]) < 1e-3:
            raise Skip()
    p1 = lambda S, i: 1 - prob0('syn4', [at(S, i)], None)[0] if len(S) < d else float(yx[i])  # noqa
    same = lambda S, i: (p1(S, i) if yx[i] else 1 - p1(S, i)) if len(S) < d else 1.  # noqa
    if kind == 'true':
        for S in c['S']:
            steps += [u('cond_exp_tree_true', X[0], yx[0], T, S, mean, cov, D), u('mc_cond_exp_true', X, yx, S, T, mean, cov, D),
                      u('sdp_true_v', X, yx, S, T, mean, cov, D), u('cond_predict_true', X[0], yx[0], S, coefs, mean, cov, 3),
                      u('cond_predict_true_clf', X[0], yx[0], coefs, S, mean, cov, 3)]
        r = ctx.values(steps)[2:]
        for k, S in enumerate(c['S']):
            a, b, s, lin, clf = r[5 * k:5 * k + 5]
            v = lambda p: p * (1 - p)  # noqa
            for i in range(n):
                p = p1(S, i)
                if i == 0:
                    sampled('cond_exp_tree_true given %s' % S, float(a), p, v(p), D)
                sampled('mc_cond_exp_true given %s' % S, float(np.asarray(b)[i, 0]), p, v(p), D)
                sampled('sdp_true_v given %s' % S, float(np.asarray(s)[i]), same(S, i), v(p), D)
            m = 1 if len(S) == d else 3
            want = 0. if len(S) == d else prob0('syn7', [at(S, 0)], coefs)[0] - yx[0]
            expect_close('cond_predict_true', lin, np.full(m, want), 1e-4, 1e-4, what='given %s' % S)
            expect_close('cond_predict_true_clf', clf, np.full(m, p1(S, 0) - yx[0]), 1e-4, 1e-4, what='given %s' % S)
    else:
        g = O.groups(d, c['C'])
        if kind == 'shapley':
            got = ctx.values(steps + [u('tree_sv_exact_true', X, yx, c['C'], T, mean, cov, D)])[2]
            want = O.shapley(g, lambda S: np.array([[p1(S, i)] for i in range(n)]), d, (n, d, 1))
            expect_close('tree_sv_exact_true', got, want, 1e-6, 1e-6)
        else:
            got = ctx.values(steps + [u('swing_tree_shap_clf_true_v', X, yx, c['C'], T, mean, cov, D, c['level'])])[2]
            want = O.shapley(g, lambda S: np.array([[(same(S, i) >= c['level']) * 1.] for i in range(n)]), d, (n, d, 1))[:, :, 0]
            site = 'swing_tree_shap_clf_true_v'
            expect_close(site, got[0], want)
            expect_close(site, np.asarray(got[1]).sum(axis=2), want, what='signed parts')
            expect_close(site, np.asarray(got[2]).sum(axis=2), np.tile(2. ** (len(g) - 1), (n, d)), what='number of swings')
    ctx.nontrivial = any(prob0('syn4', [X[i]], None)[0] != prob0('syn4', [mean], None)[0] for i in range(n))


def discretized(c, ctx):
    """Expectations given the bins of some variables, by Monte Carlo, of a model of the dummies of the bins."""
    mean, cov = law(c['law'])
    d, size = c['d'], 20000
    S2 = [sorted(S) for S in c['S']]
    X, q, rows, cells, table, mc, sv = ctx.values([{'op': 'seed', 'n': c['seed']}, fn(
        'discrete', mean, cov, np.array(c['coefs']), c['n'], c['bins'], c['depth'], c['rows'], S2, c['shapley'], size)])[1]
    q, rows = np.asarray(q), np.asarray(rows)  # edges (d, bins, 2); bin of each variable of each row
    prob = []
    for cell in cells:  # -1: below the bins, `bins`: above
        b = np.array([[-np.inf if k < 0 else q[v, k, 0] if k < len(q[v]) else q[v, -1, 1],
                       np.inf if k >= len(q[v]) else q[v, k, 1] if k >= 0 else q[v, 0, 0]] for v, k in enumerate(cell)])
        prob.append(gaussian_box(b, list(range(d)), mean, cov))
    prob, table, cells = np.array(prob), np.asarray(table), np.asarray(cells)
    if not close(prob.sum(), 1., 1e-4, 1e-4):
        raise AssertionError('the cells have the probability %r' % prob.sum())
    top = np.abs(table).max()

    def value(S, i):
        m = np.all(cells[:, S] == rows[i, S], axis=1)
        return (prob * table)[m].sum() / prob[m].sum(), prob[m].sum()
    allowed = lambda p: SIGMAS * 2 * top / np.sqrt(size * p) + 1e-3  # noqa
    for S, got in zip(S2, mc):
        for i in range(len(rows)):
            w, p = value(S, i)
            if p > .02 and not abs(got[i] - w) <= allowed(p):
                raise Violation('mc_exp_tree_discretized', 'row %d, bins %s of %s: %r, not %r (probability %.3f)' % (i, rows[i, S].tolist(), S, got[i], w, p))
    if c['shapley']:
        for i in range(len(rows)):
            ps = [value(S, i)[1] for k in range(d + 1) for S in map(list, itertools.combinations(range(d), k))]
            if min(ps) > .02:
                want = shap(d, [[]], lambda S: value(list(S), i)[0])
                if not (np.abs(np.asarray(sv)[i, :, 0] - want) <= 2 * allowed(min(ps))).all():
                    raise Violation('tree_sv_exact_discretized', 'row %d: %s, not %s' % (i, np.asarray(sv)[i, :, 0].tolist(), want.tolist()))
    ctx.nontrivial = len(set(table.tolist())) > 2 and any(0 < len(S) for S in S2)


GENERATORS = {'synthetic': synthetic, 'true': generative, 'shapley': generative, 'swing': generative, 'discretized': discretized}


def generators(c, ctx):
    GENERATORS[c['kind']](c, ctx)
    ctx.label(c['kind'])


RULE = ('Gaussian laws with small integer factors, linear and mixture models over 2-5 variables with and without groups, '
        'regression trees fitted on 4-20 grid rows (thresholds between values or on them, up to 12 variables); small exact forests '
        '(truth); synthetic models and models of bins (generators); and random inputs of the helpers. Non-trivial: correlated variables and several coefficients (linear), a proper '
        'subset (mixture, trees with more than two leaves), a forest that splits the data (truth), and for the helpers as stated by each.')
FACETS = [Facet('linear', linear_case, linear, quick=240, thorough=10000, shards=6),
          Facet('mixture', gmm_case, gmm, quick=120, thorough=4000, shards=6),
          Facet('trees', tree_case, trees, quick=400, thorough=16000, shards=6),
          Facet('truth', truth_case, truth, quick=200, thorough=8000, shards=6),
          Facet('tools', tool_case, tools, quick=500, thorough=20000, shards=6),
          Facet('generators', generator_case, generators, quick=120, thorough=5000, shards=6)]
