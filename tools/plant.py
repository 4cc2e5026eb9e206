"""plant.py ID PROPERTY FILE  (reads a spec on stdin: JSON {edits:[[file,old,new,nth]], needs, breaks, demo})"""
import json
import os
import subprocess
import sys
import shutil


def plant(id, prop, edits, needs, breaks, demo):
    w = '/tmp/seed/plant-' + id
    os.makedirs('/tmp/seed', exist_ok=True)
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new, nth in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        parts = s.split(old)
        assert len(parts) > nth + 1, (f, old, len(parts))
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, 'w').write(s)
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    # lines removed must be original ones
    orig = {}
    for f, _, _, _ in edits:
        base = subprocess.run(['git', '-C', '/repo', 'show', 'a29176f:' + f], capture_output=True, text=True).stdout
        orig[f] = set(base.split('\n'))
    for l in diff.split('\n'):
        if l.startswith('-') and not l.startswith('---') and not any(l[1:] in o for o in orig.values()):
            print('WARNING: not an original line: ' + l)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository, after its build; exit 0: the property holds on this example
export HOME=/root PYTHONPATH=${ACV_LIB:-/opt/acv-build/lib}:$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/acv-build/mpl
export OMP_NUM_THREADS=4 OPENBLAS_NUM_THREADS=1
exec /opt/pypyvenv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
''')
    shutil.rmtree(w)
    print('planted', id)
