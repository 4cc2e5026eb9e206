"""Worker side of C25: the web application of /repo/acv_app on a stand-in for streamlit (and for the styling of frames)
that gives scripted answers to the widgets and records what is shown."""
import importlib
import os
import random
import shutil
import sys
import tempfile
import types

import numpy as np


class Script(object):
    answers, shown, seed = {}, [], 0


def _show(kind):
    def f(*a, **k):
        Script.shown.append((kind, plain(a[0]) if a else None))
    return f


def _ask(kind):
    def f(label=None, *a, **k):
        opts = list(a[0]) if kind in ('selectbox', 'radio') and a else list(k['options']) if 'options' in k else None
        v = Script.answers.get((kind, label), Script.answers.get(kind))
        if kind == 'checkbox' and label == 'Compute':  # the answer that follows may be drawn
            np.random.seed(Script.seed)
            random.seed(Script.seed)
        if opts is not None:
            v = v if v in opts and kind == 'radio' else opts[(v or 0) % len(opts)]
        elif v is None:
            v = k.get('value', a[0] if a else None)
        Script.shown.append((kind, [label, opts, v]))
        return v
    return f


class Column(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _cache(f=None, **k):
    return f if f is not None else (lambda g: g)


class Styler(object):
    def __init__(self, frame):
        self.frame, self.styles = frame, []

    def apply(self, f, axis=0, **k):
        rows = [r for _, r in self.frame.iterrows()] if axis in (1, 'columns') else [self.frame[c] for c in self.frame.columns]
        self.styles.append([list(f(r, **k)) for r in rows])
        return self


def plain(x):
    import pandas as pd
    if isinstance(x, Styler):
        return {'columns': [str(c) for c in x.frame.columns], 'values': [list(r) for r in x.frame.values.tolist()], 'styles': x.styles}
    if isinstance(x, pd.DataFrame):
        return {'columns': [str(c) for c in x.columns], 'values': [list(r) for r in x.values.tolist()]}
    if type(x).__name__ == 'Figure':
        return figure(x)
    return x if isinstance(x, str) else str(x)


def figure(fig):
    """What can be read off a figure: labels of the first axis, texts with their heights, widths of the bars."""
    ax = fig.axes[0]
    fig.canvas.draw()
    bars = [[float(p.get_y() + p.get_height() / 2.), float(p.get_width())] for p in ax.patches if type(p).__name__ == 'Rectangle']
    out = {'ticks': [[float(y), t.get_text()] for y, t in zip(ax.get_yticks(), ax.get_yticklabels())],
           'texts': [[float(t.get_position()[1]), t.get_text()] for t in ax.texts],
           'bars': bars, 'top': [[t.get_text() for t in z.get_xticklabels()] for z in fig.axes[1:]]}
    import matplotlib.pyplot as plt
    plt.close('all')
    return out


def app():
    if 'streamlit' not in sys.modules:
        st = types.ModuleType('streamlit')
        both = {k: _show(k) for k in ('text', 'title', 'header', 'subheader', 'dataframe', 'table', 'pyplot', 'markdown', 'write')}
        both.update({k: _ask(k) for k in ('selectbox', 'radio', 'checkbox', 'number_input', 'slider')})
        for k, v in both.items():
            setattr(st, k, v)
        st.sidebar = types.SimpleNamespace(**both)
        st.columns = lambda n, *a, **k: [Column() for _ in range(n if isinstance(n, int) else len(n))]
        st.cache = st.cache_data = st.cache_resource = _cache
        st.set_page_config = lambda *a, **k: None

        def other(name):  # whatever else is shown
            if name.startswith('_'):
                raise AttributeError(name)
            return _show(name)
        st.__getattr__ = other
        sys.modules['streamlit'] = st
        import pandas as pd
        pd.DataFrame.style = property(Styler)  # the styling of frames needs jinja2, which is not installed
    m = importlib.import_module('acv_app.app')
    root = os.path.realpath(os.environ['VERIF_REPO']) + '/'
    assert os.path.realpath(m.__file__).startswith(root), m.__file__
    return m


def visits(explainer, data, names, scripts):
    """Compile an explainer with its data, then visit the pages: what each visit shows."""
    import pandas as pd
    m = app()
    X, y, Z, z = data
    if names is not None:
        X, Z = pd.DataFrame(X, columns=names), pd.DataFrame(Z, columns=names)
    folder = tempfile.mkdtemp()
    out = []
    try:
        m.compile_ACXplainers(explainer, X, y, Z, z, folder)
        for s in scripts:
            Script.shown, Script.seed = [], s['seed']
            Script.answers = {'radio': s['page'], 'number_input': None, ('number_input', 'SAMPLE SIZE'): s['nb'],
                              ('number_input', 'SDP MIN (\\pi)'): s['pi'], ('selectbox', 'Choose the observation you want to explain'): s['row'],
                              ('selectbox', 'Change the explanations'): 0 if s['set'] is None else s['set'], ('checkbox', 'Compute'): s['max']}
            m.main(folder)
            out.append(Script.shown)
    finally:
        shutil.rmtree(folder)
        import matplotlib.pyplot as plt
        plt.close('all')
    return out


def shap(explainer, X, data):
    explainer.check_is_explainer()
    return explainer.ACXplainer.shap_values(X, data)


def waterfall(base, values, features, names, limit):
    app()
    m = importlib.import_module('acv_app.plots')
    return figure(m.waterfall(base, values, features, names, **({} if limit is None else {'max_display': limit})))
