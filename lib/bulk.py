"""Large cases. A case holds the shape and a seed; the trees, rows and outputs are drawn from the seed when it runs.

{'bulk': {'seed', 'd', 'trees', 'depth', 'N', 'n', 'grid', 'k', 'clf', ...}, ...}: `expand` adds 'd', 'k', 'order',
'trees', 'data', 'X' (and 'yd', 'y', 'S', 't', 'down', 'up', 'th', 'cond' where the shape asks for outputs).
"""
import numpy as np
from hypothesis import strategies as st

import gen

BIG = 1e10


@st.composite
def shape(draw, forms, d=(3, 8), trees=(2, 8), depth=(3, 7), N=(100, 500), n=(1, 6), nmin=(1, 5, 10, 40), unit=True):
    form = draw(st.sampled_from(forms))
    s = {'form': form, 'seed': draw(st.integers(0, 10 ** 6)), 'd': draw(st.integers(*d)),
         'trees': 1 if form.startswith('dt') else draw(st.integers(*trees)), 'depth': draw(st.integers(*depth)),
         'N': draw(st.integers(*N)), 'n': draw(st.integers(*n)), 'grid': draw(st.sampled_from([3, 8, 30])),
         'near': draw(st.integers(0, 2)), 'nmin': draw(st.sampled_from(nmin))}
    s['clf'] = form in ('sk_clf', 'dt_clf') or form in ('acx', 'tree', 'agn') and draw(st.booleans())
    s['k'] = draw(st.integers(2, 4)) if s['clf'] else 1
    s['unit'] = draw(st.sampled_from(gen.UNIT)) if unit else 0
    return s


def grow(rng, D, rows, depth, leaf):
    """A tree splitting the rows at random: at a value (exactly), between values, now and then outside the node."""
    if depth == 0 or len(rows) < 2 or rng.randint(100) < 4:
        return ['L', leaf()]
    f = int(rng.randint(D.shape[1]))
    v = D[rows, f]
    t2 = int(2 * v[rng.randint(len(v))] + rng.choice([0, 0, 1, -1])) if rng.randint(100) < 94 else \
        int(rng.randint(0, 2 * D.max() + 1))
    m = v <= t2 / 2.
    return ['S', f, t2, grow(rng, D, rows[m], depth - 1, leaf), grow(rng, D, rows[~m], depth - 1, leaf)]


def expand(c):
    s = c['bulk']
    rng = np.random.RandomState(s['seed'])
    d, N, n, g = s['d'], s['N'], s['n'], s['grid']
    D = rng.randint(0, g + 1, (N, d))
    if rng.randint(2):  # clumps: many equal rows
        D = D[rng.randint(0, max(2, N // 4), N)]
    leaf = (lambda: [int(v) for v in rng.multinomial(12, np.ones(s['k']) / s['k'])]) if s['clf'] else \
        (lambda: [float(v) / 4 for v in rng.randint(-12, 13, s['k'])])
    ts = [grow(rng, D, np.arange(N), s['depth'], leaf) for _ in range(s['trees'])]
    if all(t[0] == 'L' for t in ts):
        ts[0] = ['S', 0, int(2 * np.median(D[:, 0]) + 1), ts[0], ['L', leaf()]]
    pick = rng.randint(0, N, n)
    X = D[pick].copy()
    for r in range(n):
        for _ in range(s['near']):
            if rng.randint(2):
                X[r, rng.randint(d)] = rng.randint(-1, g + 2)
    out = dict(c, form=s['form'], d=d, k=s['k'], clf=s['clf'], order='dfs' if rng.randint(2) else 'bfs', trees=ts,
               unit=s['unit'],
               data=D.tolist(), X=X.tolist(), nmin=s['nmin'])
    if s['form'] in ('acx', 'tree', 'agn'):
        draw = (lambda m: rng.randint(0, s['k'], m)) if s['clf'] else (lambda m: rng.randint(-8, 9, m) / 4.)
        base = draw(64)[(D.dot(rng.randint(0, 3, d)) // max(1, g // 2)) % 64]
        yd = np.where(rng.randint(0, 5, N) == 0, draw(N), base)
        y = np.where(rng.randint(0, 5, n) == 0, draw(n), yd[pick])
        q = lambda lo, hi: rng.randint(lo, hi + 1, n) / 4.  # noqa
        lo, dn = y - q(0, 6), q(-8, 8)
        out.update(yd=yd.tolist(), y=y.tolist(), t=np.stack([lo, lo + q(0, 10)], axis=1).tolist(), down=dn.tolist(),
                   up=(dn + q(0, 8)).tolist(), th=q(-8, 8).tolist(), default=bool(rng.randint(4) == 0),
                   S=[[int(v) for v in rng.permutation(d)[:rng.randint(1, d) if d > 1 else 1]] for _ in range(n)])
        a = rng.randint(-1, 2 * g, (n, d))
        w = a + rng.randint(0, 2 * g, (n, d))
        kind = rng.randint(0, 4, (n, d))
        out['cond'] = np.stack([np.where(kind % 2, -BIG, a / 2.), np.where(kind // 2, BIG, w / 2.)], axis=2).tolist()
        out['pick'] = int(rng.randint(1000))
    return out


def big(run):
    def go(c, ctx):
        e = expand(c)
        ctx.label('N:%d00' % (len(e['data']) // 100), 'leaves:%s' % size(max(leaves(t) for t in e['trees'])))
        run(e, ctx)
    return go


def leaves(t):
    return 1 if t[0] == 'L' else leaves(t[3]) + leaves(t[4])


def size(v):
    return '<16' if v < 16 else '<64' if v < 64 else '>=64'
