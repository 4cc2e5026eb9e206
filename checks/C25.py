"""C25: the pages of the web application show what the explainer computes on the data it was compiled with."""
import re

import numpy as np
from hypothesis import strategies as st

import gen
from checks.agn import ranger_case
from checks.common import arr
from harness import Facet, Skip, Violation, close

PROP = 'C25'
NAMES = ['age', 'X0', 'X 1', 'a-b', 'sepal width (cm)', '10', 'B', 'x_y', 'Unnamed: 3', 'rate=2', 'Output_', 'gender', '0', 'é']
SDP, SV = 'SDP based explanations', 'Shapley based Explanations'


def app(f, *a):
    return {'op': 'fn', 'f': 'webapp:' + f, 'a': list(a), 'k': {}}


def number(s):
    return float(s.replace('\u2212', '-').replace('$', '').replace('=', '').strip())


@st.composite
def pages_case(draw):
    c = draw(ranger_case(rows=(12, 24), X=(1, 8)))
    c['names'] = draw(st.lists(st.sampled_from(NAMES), min_size=c['d'], max_size=c['d'], unique=True)) if gen.chance(draw, 60) else None
    c['unit'], c['yunit'] = draw(st.sampled_from([1., 1., .1, 1 / 3.])), draw(st.sampled_from([1., 1., .1]))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    c['far'] = gen.chance(draw, 6)  # more than a hundred rows to explain
    c['visits'] = [{'page': SV if gen.chance(draw, 30) else SDP, 'nb': draw(st.integers(5, 12)), 'pi': draw(st.sampled_from([.9137, .7311, .8219, .9871])),
                    'row': draw(st.integers(0, 119)), 'set': draw(st.integers(0, 30)), 'max': gen.chance(draw, 50),
                    'seed': draw(st.integers(0, 10 ** 6))} for _ in range(draw(st.integers(1, 3)))]
    return c


def of(shown, kind):
    return [v for k, v in shown if k == kind]


def pages(c, ctx):
    clf, d = bool(c['clf']), c['d']
    X, Z = arr(c['data'], d) * c['unit'], arr(c['X'], d) * c['unit']
    y, z = (np.array(v) if clf else np.array(v, dtype=float) * c['yunit'] for v in (c['yd'], c['y']))
    if c['far']:
        k = -(-104 // len(Z))
        Z, z = np.tile(Z, (k, 1)), np.tile(z, k)
    yf, zf = y.astype(float), z.astype(float)
    names = c['names'] or ['X%d' % i for i in range(d)]
    start = [{'op': 'seed', 'n': c['seed']}, {'op': 'new', 'id': 'a', 'kind': 'acx', 'k': dict(c['params'], classifier=clf)},
             {'op': 'call', 'obj': 'a', 'm': 'fit', 'a': [X, yf], 'k': {}}]
    call = lambda m, *a, **k: {'op': 'call', 'obj': 'a', 'm': m, 'a': list(a), 'k': k}  # noqa
    steps = start + [{'op': 'forest', 'obj': 'a', 'attr': 'model'}]
    if all(np.asarray(t['children_left'])[0] <= 0 for t in ctx.values(steps)[3]):
        raise Skip()
    steps.append(app('visits', ('__ref__', 'a'), [X, y, Z, z], c['names'], c['visits']))
    for v in c['visits']:
        n = min(v['nb'], len(Z))
        steps.append(call('sufficient_expl_rf', Z[:n], zf[:n], X, yf, stop=False, pi_level=v['pi']))
    steps += [app('shap', ('__ref__', 'a'), Z, X), call('predict_proba' if clf else 'predict', Z)]
    r = ctx.values(steps)[4:]
    shown, sets, (sv, pred) = r[0], r[1:-2], r[-2:]
    rules = []
    todo = list(start)
    for v, w, (coal, sdp, _) in zip(c['visits'], shown, sets):
        row = chosen(w, 'Choose the observation you want to explain', len(Z), v)
        if v['page'] == SDP and len(coal[row]):
            q = chosen(w, 'Change the explanations', len(coal[row]), v)
            S = [int(s) for s in coal[row][q]]
            a = [Z[row:row + 1], zf[row:row + 1], X, yf]
            at = len(todo)
            todo.append(call('compute_sdp_rule', *a, S=[S]))
            if v['max']:
                todo += [{'op': 'seed', 'n': v['seed']}, call('compute_sdp_maxrules', *a, S=[S], pi_level=v['pi'])]
            rules.append((row, q, S, at))
        else:
            rules.append((row, None, None, None))
    got = ctx.values(todo)
    for v, w, (coal, sdp, _), (row, q, S, at) in zip(c['visits'], shown, sets, rules):
        if v['page'] == SV:
            i = 1 if sv.shape[2] != 1 else 0
            base = float(np.mean(np.asarray(pred)[:, 1] if sv.shape[2] != 1 else pred))
            figs = of(w, 'pyplot')
            if len(figs) != 1:
                raise Violation('sv_app', '%d figures' % len(figs))
            read_waterfall('sv_app', figs[0], base, sv[row, :, i], Z[row], names, 10)
            ctx.label('shapley')
        elif S is None:
            if of(w, 'dataframe') or of(w, 'markdown') or not any('No explanation' in t for t in of(w, 'text')):
                raise Violation('sdp_app', 'row %d has no sufficient explanation: %.300r' % (row, w))
            ctx.label('no explanation')
        else:
            more = None
            if v['max']:
                more = ctx.values(start + [{'op': 'seed', 'n': v['seed']}, call('fit_global_rules', X, yf, got[at + 2][1], [S]),
                                           {'op': 'attr', 'obj': 'a', 'attr': 'rules_coverage'}, {'op': 'attr', 'obj': 'a', 'attr': 'rules_acc'}])[-2:]
            read_sdp(w, names, Z[row], zf[row], coal[row], sdp[row], q, S, got[at][1][0], got[at + 2][1][0] if v['max'] else None, more)
            ctx.label('sufficient', 'maximal' if v['max'] else 'local')
    ctx.label('clf' if clf else 'reg')
    ctx.nontrivial = any(S is not None or v['page'] == SV for (_, _, S, _), v in zip(rules, c['visits']))


def chosen(shown, label, n, v):
    for k, x in shown:
        if k == 'selectbox' and x[0] == label:
            if not (1 <= len(x[1]) <= n and x[1] == list(range(len(x[1])))):
                raise Violation('selectbox', '%s of %s for %d' % (label, x[1], n))
            return x[2]
    raise Violation('selectbox', 'no choice "%s" on %s: %.300r' % (label, v['page'], shown))


def read_sdp(w, names, x, y, coal, sdp, q, S, rule, widest, info):
    frames, marks, figs = of(w, 'dataframe'), of(w, 'markdown'), of(w, 'pyplot')
    if len(frames) != 2 + (widest is not None) or len(marks) != 1 + (widest is not None) or len(figs) != 1:
        raise Violation('sdp_app', '%d frames, %d rules, %d figures' % (len(frames), len(marks), len(figs)))
    f = frames[0]
    want = [[' - '.join(names[v] for v in s), p] for s, p in zip(coal, sdp)]
    if len(f['values']) != len(want) or any(a[0] != b[0] or not close(a[1], b[1]) for a, b in zip(f['values'], want)):
        raise Violation('sufficient explanations', '%.300r shown, %.300r' % (f['values'], want))
    freq = [sum(v in s for s in coal) / float(len(coal)) for v in range(len(names))]
    fig = figs[0]
    top = max(y_ for y_, _ in fig['ticks'])
    if len(fig['ticks']) != min(7, len(names)) or len(fig['bars']) != len(fig['ticks']):
        raise Violation('importance', '%r for %d variables' % (fig, len(names)))
    last = None
    for y_, t in sorted(fig['ticks'], reverse=True):
        v = which('importance', t, names, x, last=True)
        width = [b for a, b in fig['bars'] if abs(a - y_) < .3]
        text = [b for a, b in fig['texts'] if abs(a - y_) < .3]
        if len(width) != 1 or len(text) != 1 or not close(width[0], freq[v]) or abs(number(text[0]) - freq[v]) > 1e-3:
            raise Violation('importance', '%s shown as %s, bar %s, but it is in %r of the sets %s' % (t, text, width, freq[v], coal))
        if last is not None and freq[v] > last + 1e-9:
            raise Violation('importance', 'not in order: %r for frequencies %s' % (fig['ticks'], freq))
        last = freq[v]
    if top != len(fig['ticks']):
        raise Violation('importance', 'heights %r' % fig['ticks'])
    if not any('%d different' % len(coal) in t for t in of(w, 'text')):
        raise Violation('sdp_app', 'number of explanations: %r, %d' % (of(w, 'text'), len(coal)))
    f = frames[1]
    if f['columns'] != names + ['Output', 'SDP'] or len(f['values']) != 1 or not np.array_equal(np.array(f['values'][0], dtype=float)[:-1], np.append(x, y)) \
            or not close(f['values'][0][-1], sdp[q]):
        raise Violation('row', '%r shown, row %r, output %r, SDP %r' % (f, x, y, sdp[q]))
    st_ = f['styles'][0][0] if len(f['styles']) == 1 and len(f['styles'][0]) == 1 else []
    if len(st_) != len(names) + 2 or any((st_[v] != '') != (v in S) for v in range(len(names) + 1)):
        raise Violation('row', 'highlighted %r for the explanation %s' % (f['styles'], S))
    read_rule('local rule', marks[0], names, rule, S)
    if widest is not None:
        read_rule('maximal rule', marks[1], names, widest, S)
        f = frames[2]
        if f['columns'] != ['Rule coverage', 'Rule accuracy/mse'] or not close(np.array(f['values'], dtype=float), np.stack(info, axis=1)):
            raise Violation('global rule', '%r shown, %r' % (f, info))


def read_rule(site, mark, names, rule, S):
    text = re.sub(r'^<h\d[^>]*>|</h\d>$', '', mark)
    parts = text.split(' and ') if text else []
    if len(parts) != len(S):
        raise Violation(site, '%s for the variables %s' % (text, S))
    for p, v in zip(parts, S):
        t = p.split(' <= ')
        lo, hi = [-np.inf if b <= -1e10 else np.inf if b >= 1e10 else float(b) for b in rule[v]]
        if len(t) != 3 or t[1] != names[v] or not close(float(t[0]), lo) or not close(float(t[2]), hi):
            raise Violation(site, '%s shown, %s in [%r, %r]' % (p, names[v], lo, hi))


def which(site, label, names, x, last=False):
    """The variable a label "value = name" (or "name = value") tells, after checking the value."""
    for v, n in enumerate(names):
        a, b = (n + ' = ', '') if last else ('', ' = ' + n)
        if label.startswith(a) and label.endswith(b) and len(label) > len(a) + len(b):
            try:
                g = number(label[len(a):len(label) - len(b)])
            except ValueError:
                continue
            if abs(g - x[v]) > 6e-4:
                raise Violation(site, 'label %s, value %r' % (label, x[v]))
            return v
    raise Violation(site, 'label %s, names %s' % (label, names))


@st.composite
def waterfall_case(draw):
    n = draw(st.integers(1, 14))
    q = st.integers(-40, 40).map(lambda v: v / 16.)
    c = {'base': draw(q), 'values': draw(st.lists(q, min_size=n, max_size=n)), 'x': draw(st.lists(st.integers(-30, 3000).map(lambda v: v / 10.), min_size=n, max_size=n)),
         'limit': draw(st.sampled_from([None, None, 3, 5, 12])), 'named': draw(st.booleans())}
    if gen.chance(draw, 30):
        c['values'] = [v / 64. for v in c['values']]
    return c


def falls(c, ctx):
    names = ['v%d' % i for i in range(len(c['x']))] if c['named'] else None
    v, x = np.array(c['values']), np.array(c['x'])
    if not v.any():
        raise Skip()
    fig = ctx.values([app('waterfall', c['base'], v, x, names, c['limit'])])[0]
    read_waterfall('waterfall', fig, c['base'], v, x, names or ['Feature %d' % i for i in range(len(v))], c['limit'] or 10)
    ctx.label('grouped' if len(v) > (c['limit'] or 10) else 'each')
    ctx.nontrivial = len(v) > 2 and bool((v > 0).any() and (v < 0).any())


def read_waterfall(site, fig, base, values, x, names, limit):
    n = len(values)
    rows = min(n, limit)
    each = n if n <= limit else limit - 1
    labels, texts = {}, {}
    for y_, t in fig['ticks']:
        labels.setdefault(int(round(y_)), t)
    for y_, t in fig['texts']:
        texts.setdefault(int(round(y_)), []).append(t)
    if sorted(labels) != list(range(rows)) or sorted(texts) != list(range(rows)) or any(len(t) != 1 for t in texts.values()):
        raise Violation(site, '%d values of which %d are shown: labels %r, amounts %r' % (n, rows, labels, texts))
    seen, last = [], None
    for i in range(each):
        y_ = rows - 1 - i
        v = which(site, labels[y_], names, x)
        if abs(number(texts[y_][0]) - values[v]) > 6e-3:
            raise Violation(site, '%s shown as %s for %r' % (names[v], texts[y_], values[v]))
        if v in seen or last is not None and abs(values[v]) > last + 1e-12:
            raise Violation(site, 'order %s then %d for the values %r' % (seen, v, values))
        seen.append(v)
        last = abs(values[v])
    if each < n:
        rest = sum(values[v] for v in range(n) if v not in seen)
        if labels[0] != '%d other features' % (n - each) or abs(number(texts[0][0]) - rest) > 6e-3:
            raise Violation(site, '%s: %s, the others sum to %r' % (labels[0], texts[0], rest))
    for t, w in zip(fig['top'], (base, base + float(np.sum(values)))):
        if abs(number(t[1]) - w) > 6e-4:
            raise Violation(site, '%s shown for %r' % (t, w))


RULE = ('Explainers grown by ranger, compiled with their data (frames or arrays, values that are not short decimals) into a scratch '
        'folder; one to three visits with any page, row, explanation and parameters; and waterfall plots of any values. '
        'Non-trivial: an explanation or a waterfall is shown; values of both signs.')
FACETS = [Facet('pages', pages_case(), pages, quick=96, thorough=1600),
          Facet('waterfall', waterfall_case(), falls, quick=160, thorough=3000)]
