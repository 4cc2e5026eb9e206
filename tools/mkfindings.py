"""Rewrites the 'fixed' entries of known_findings.json from /repo's fix: commits (subject -> properties)."""
import json
import subprocess

PROPS = [  # (start of the subject, properties)
    ('size the Shapley buffers', ['C02']), ('do not treat leaves', ['C12']), ('a leaf holds the points', ['C05', 'C06', 'C07', 'C08', 'C09']),
    ('compute_exp_normalized_nopa calls', ['C05']), ('compute_exp_normalized:', ['C05']),
    ('normalized Shapley values', ['C03']), ('pure-Python Shapley values', ['C03', 'C04']), ('Active Shapley values', ['C04']),
    ('Python estimators', ['C03', 'C05', 'C06', 'C07']), ('py_shap_values_acv', ['C04']), ('use the caches only', ['C03']),
    ('py_compute_exp(_cat)', ['C05']), ('sequential SDP and swing', ['C06', 'C08', 'C09']), ('SDP of regression forests', ['C07', 'C08']),
    ('importance_sdp_reg with grouped', ['C08']), ('sufficient explanations: no variables', ['C08', 'C16']),
    ('get_null_coalition reads', ['C11']), ('swing_sv_clf: without', ['C09']), ('sufficient explanations with many', ['C08']),
    ('py_swing_*', ['C09']),
    ('marginal sufficient explanations', ['C10']),
    ('ACVTreeAgnostic and the v0', ['C12']), ('ACXplainer on data with one feature', ['C12']),
    ('ACVTree.importance_sdp_rf', ['C16']), ('sufficient_expl_rf of ACVTree', ['C17']), ('sufficient_cxpl_rf', ['C17']),
    ('rules_by_annealing: keep', ['C18']), ('extend_rec: join', ['C18']),
    ('global rules: choose', ['C19']), ('compute_rules_metrics:', ['C19']), ('ACXplainer.fit: the explanations', ['C20']),
    ('remove_in_wsdp', ['C21']), ('run_local_counterfactual_rules', ['C21']), ('run_regional_divergent_set', ['C21']),
    ('cdp_intv of classifiers', ['C14', 'C16', 'C21']), ('run_sampling_regional', ['C21']), ('CR: regional', ['C21']),
    ('XGBoost loader: strip', ['C01']), ('XGBoost loader: the base score', ['C01']),
    ('the leaves of a tree are those reachable', ['C01', 'C02', 'C05']), ('XGBoost models: the trees explained', ['C01']),
    ('GradientBoostingClassifier with the exp', ['C01']), ('HistGradientBoostingClassifier: a binary', ['C01']),
    ('XGBoost JSON dumps:', ['C01']), ('XGBoost dumps: a value', ['C01']), ('XGBoost models: with several classes', ['C01']),
    ('isolation forests:', ['C01']), ('LightGBM', ['C01']),
    ('compute_cdf_rf of ACXplainer', ['C12']), ('the projected forests of ACVTree', ['C12']),
    ('groups of one variable', ['C03', 'C04', 'C09', 'C23']), ('predict of a single isolation', ['C01']),
    ('rules are the same', ['C19', 'C23']), ('bounds of counterfactual rules', ['C21']), ('the telco data', ['C23']),
    ('sampleMarMVN', ['C23']), ('experiments:', ['C23']), ('mixture experiments:', ['C23']), ('OHE experiment:', ['C23']),
    ('discretized Monte Carlo:', ['C23']), ('cached normalized leaves', ['C24']),
    ('web application:', ['C25']),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'a29176f..HEAD'],
                         capture_output=True, text=True, check=True).stdout.splitlines()
    p = '/verif/known_findings.json'
    try:
        old = [k for k in json.load(open(p)) if k['status'] == 'known']
    except FileNotFoundError:
        old = []
    out = list(old)
    for line in log:
        h, s = line.split(' ', 1)
        assert s.startswith('fix: '), s
        s = s[5:]
        m = [ps for a, ps in PROPS if s.startswith(a)]
        assert len(m) == 1, s
        for q in m[0]:
            out.append({'status': 'fixed', 'property': q, 'commit': h, 'what': s,
                        'line': 'fixed: property=%s %s %s' % (q, h, s)})
    with open(p, 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(out), 'entries')


main()
