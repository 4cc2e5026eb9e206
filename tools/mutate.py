"""Mutation campaign: random small changes to the functions the checks judge, to find holes in the checks.

usage: mutate.py LANE SEED SECONDS [py|pyx|cc|exp] [REGEX]   (results in /tmp/mut/LANE.jsonl)
Works on a clone of /repo and a copy of /verif under /tmp/mut/LANE; never touches either original.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

lane, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
kind = sys.argv[4] if len(sys.argv) > 4 else 'py'
want = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
W = '/tmp/mut/' + lane
R, V = W + '/repo', W + '/verif'
PYX = 'acv_explainers/cyext_acv/'
# (file regex, function regex, checks)
MAP = [
    ('cyext.*pyx', r'shap|leaves_cache', ['C02', 'C03', 'C04']),
    ('cyext.*pyx', r'compute_exp(_cat|_normalized)?(_nopa)?$', ['C05']),
    ('cyext.*pyx', r'compute_sdp_clf|global_sdp_clf', ['C06', 'C08']),
    ('cyext.*pyx', r'compute_sdp_reg|global_sdp_reg', ['C07', 'C08']),
    ('cyext.*pyx', r'swing', ['C09']),
    ('cyext.*pyx', r'maxrule', ['C18', 'C17']),
    ('cyext.*pyx', r'_rf|_rule|_weights|cdp|ddp|same_set|compile_rules', ['C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C21', 'C10']),
    ('cyext.*pyx', r'binomialC|_comb', ['C02', 'C03', 'C04', 'C06', 'C08']),
    ('_cext.cc|acv_tree.h', r'', ['C01', 'C02']),
    ('acv_agnosticX', r'', ['C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C10']),
    ('acv_tree.py', r'', ['C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C20']),
    ('base_tree|base_agnos', r'', ['C01', 'C02', 'C11', 'C12', 'C05', 'C20']),
    ('counterfactual_rules', r'', ['C21', 'C20']),
    ('py_acv', r'', ['C02', 'C04', 'C06', 'C07', 'C08', 'C09', 'C03']),
    ('utils_exp', r'', ['C05', 'C10', 'C13', 'C12']),
    ('utils_sdp', r'', ['C06', 'C07', 'C10', 'C08']),
    ('utils_cr', r'', ['C21']),
    ('utils.py', r'', ['C19', 'C18', 'C21', 'C13', 'C20', 'C17', 'C02', 'C10', 'C05', 'C14']),
]
DEAD = re.compile(r'^(plot_|bar_plot|autolabel|compute_fcluster|ecart_model|get_given_data|nb_row|get_partition_tree|get_final_partition|'
                  r'leaves_proba|l1_norm|condMVN|marMVN|sample|chain_l|linear_regression|return_positive|sigmoid|return_weak|return_c_values|return_strong|return_main|'
                  r'encode_|get_feature_names|print_|demo_|RunExp|run_.*experi|show_|powerset|sdp_rule_biased|.*biased|single_compute_sdp_rule_biased|'
                  r'py_compute_local|py_global|.*verbose|save_model|load_model|CatBoostTreeModelLoader|record_import|assert_import|nogil|app|rebuild_tree|rebuild_acvtree|compile_rules)')

DEADX = re.compile(r'^(plot_|bar_plot|autolabel|styling|print_|shap_fit_metric|cond_exp_tree_plot|cond_sdp_tree|assert_import|record_import|show_|demo_)')


def sh(cmd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def functions(path):
    """[(name, first line, last line)] of the functions of a file (0-based, body only)."""
    ls = open(path).read().split('\n')
    out = []
    pat = re.compile(r'^( *)(cpdef|cdef|def) .*?(\w+)\(') if path.endswith(('.py', '.pyx')) else re.compile(r'^()(static|inline|void|int|tfloat|bool|PyObject).*?(\w+)\(')
    for i, l in enumerate(ls):
        m = pat.match(l)
        if m and not (l.startswith('cdef extern')):
            if out and out[-1][2] is None:
                out[-1][2] = i
            out.append([m.group(3), i, None])
    if out:
        out[-1][2] = len(ls)
    return ls, out


def docmask(ls):
    m, inside = [], False
    for l in ls:
        n = l.count('"""') + l.count("'''")
        m.append(inside or n > 0)
        if n % 2:
            inside = not inside
    return m


OPS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']),
    (r'==', ['!=']), (r'!=', ['==']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\*', ['/']), (r' / ', [' * ']),
    (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\band\b', ['or']), (r'\bor\b', ['and']), (r'\bnot ', ['']),
    (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']),
    (r'\bbreak\b', ['pass']), (r'\bcontinue\b', ['pass']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
    (r'\blen\((\w+)\)', [r'(len(\1)-1)']), (r'\brange\((\w+)\)', [r'range(\1-1)', r'range(1,\1)']),
    (r'\[(\w+)\]', [r'[\1-1]', r'[0]']), (r'\bS_size\b', ['(S_size-1)']),
    (r'\baxis=0\b', ['axis=1']), (r'\baxis=1\b', ['axis=0']), (r'\.copy\(\)', ['']), (r'\bmean\b', ['sum']), (r'\bargmax\b', ['argmin']),
    (r'^(\s+)(?!return|for|while|if|else|elif|with|def|cdef|try|except|raise|import|from)(\w[^:]*)$', [r'\1pass']),
    (r'\bself\.(\w+)\b', [r'None']),
]


def main():
    rnd = random.Random(seed)
    if os.path.exists(W):
        shutil.rmtree(W)
    os.makedirs(W)
    sh('git clone -q /repo %s' % R)
    os.makedirs(V)
    for d in ('bin', 'lib', 'checks'):
        shutil.copytree('/verif/' + d, V + '/' + d)
    shutil.copy('/verif/known_findings.json', V)
    env = {'VERIF_REPO': R, 'VERIF_FAST': '1', 'VERIF_PROCS': os.environ.get('VERIF_PROCS', '3'), 'VERIF_OPT': '-O0',
           'VERIF_TIER': 'quick', 'VERIF_SEED': str(seed)}
    files = sh('cd %s && git ls-files acv_explainers experiments' % R)[1].split()
    EXP = kind == 'exp'
    if kind == 'pyx':
        files = [f for f in files if f.endswith('.pyx')]
    elif kind == 'cc':
        files = [f for f in files if f.endswith(('.cc', '.h'))]
    elif EXP:
        files = [f for f in files if f.endswith('.py') and (f.startswith('experiments') or f.endswith('acv_explainers/utils.py')) and '__init__' not in f]
    else:
        files = [f for f in files if f.endswith('.py') and 'setup' not in f and '__init__' not in f and not f.startswith('experiments')]
    pool = []
    for f in files:
        ls, fs = functions(R + '/' + f)
        mask = docmask(ls)
        for name, a, b in fs:
            full = f + ':' + name
            if (DEAD.match(name) if not EXP else DEADX.match(name)) or (want and not want.search(full)):
                continue
            for fr, nr, checks in (MAP if not EXP else [('', '', ['C23'])]):
                if re.search(fr, f) and re.search(nr, name):
                    break
            else:
                continue
            lines = []
            sig = True
            for i in range(a, b):
                l = ls[i]
                if sig:  # skip the signature
                    if l.rstrip().endswith(':') or l.rstrip().endswith('nogil:') or l.rstrip().endswith('{'):
                        sig = False
                    continue
                t = l.strip()
                if not t or t[0] in '#@' or mask[i] or re.match(r'(cdef [^=]*$|print|import|from|raise|warnings|assert|@)', t) or 'tqdm' in t or 'num_threads' in t or 'prange' in t:
                    continue
                lines.append(i)
            if lines:
                pool.append((f, name, a, lines, checks))
    # a function's weight: sqrt of its size
    weights = [len(p[3]) ** 0.5 for p in pool]
    log = open('/tmp/mut/%s.jsonl' % lane, 'a')
    t0 = time.time()
    done = set()
    while time.time() - t0 < secs:
        f, name, a, lines, checks = rnd.choices(pool, weights)[0]
        i = rnd.choice(lines)
        path = R + '/' + f
        src = open(path).read()
        ls = src.split('\n')
        opts = []
        for pat, reps in OPS:
            for m in re.finditer(pat, ls[i]):
                for r in reps:
                    new = ls[i][:m.start()] + m.expand(r) + ls[i][m.end():]
                    if new != ls[i]:
                        opts.append(new)
        if not opts:
            continue
        new = rnd.choice(opts)
        if (f, i, new) in done:
            continue
        done.add((f, i, new))
        ls2 = list(ls)
        ls2[i] = new
        open(path, 'w').write('\n'.join(ls2))
        rec = {'file': f, 'func': name, 'line': i + 1, 'old': ls[i].strip(), 'new': new.strip(), 'killed': None, 't': 0}
        t = time.time()
        try:
            if f.endswith('.py'):
                rc, out = sh('python3 -m py_compile %s' % path)
                if rc:
                    continue
            rc, out = sh('cd %s && python3 lib/build.py' % V, env)
            if rc:
                rec['killed'] = 'build'
                continue
            ran = []
            for c in checks:
                try:
                    rc, out = sh('cd %s && bin/check %s quick' % (V, c), env, 900)
                except subprocess.TimeoutExpired:
                    sh("pkill -9 -f %s" % V)
                    rc, out = 1, '[timeout]'
                ran.append('%s=%d' % (c, rc))
                if rc:
                    m = re.search(r'^  \[.*', out, re.M)
                    rec['killed'] = c
                    rec['rc'] = rc
                    rec['msg'] = (m.group(0) if m else out[-300:])[:300]
                    break
            rec['ran'] = ran
        finally:
            open(path, 'w').write(src)
            rec['t'] = round(time.time() - t)
            if rec['killed'] != 'build':
                log.write(json.dumps(rec) + '\n')
                log.flush()
            for x in os.listdir(V + '/build') if os.path.isdir(V + '/build') else []:
                if x.startswith('lib-') and time.time() - os.path.getmtime(V + '/build/' + x) > 600:
                    shutil.rmtree(V + '/build/' + x, ignore_errors=True)


main()
