"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'acv_explainers/acv_tree.py'
B = 'acv_explainers/base_tree.py'
AX = 'acv_explainers/acv_agnosticX.py'
BA = 'acv_explainers/base_agnostree.py'
U = 'acv_explainers/utils.py'
CR = 'acv_explainers/counterfactual_rules.py'
UC = 'acv_explainers/utils_cr.py'
PY = 'acv_explainers/py_acv.py'
US = 'acv_explainers/utils_sdp.py'
K = 'acv_explainers/cyext_acv/cyext_acv.pyx'
KN = 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx'
KC = 'acv_explainers/cyext_acv/cyext_acv_cache.pyx'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed))


exec(open(os.path.join(HERE, 'lib', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 lib/build.py',
       'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'],
                   'thorough_cmd': 'bin/check %s thorough' % p['id'], 'technique': p['technique'],
                   'level': 'exploration', 'level_note': p['note']}
                  for p in P if p['claimed'] and os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py'))],
       'not_applicable': [{'property': p['id'], 'reason': p.get('reason', 'no check has been built for it yet')}
                          for p in P if not (p['claimed'] and os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')))]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
