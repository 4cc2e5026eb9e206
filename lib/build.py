"""Builds the four extension modules from /repo's working tree, outside /repo.

Each extension is keyed by the content of its sources; an unchanged extension is taken from
/verif/build (an earlier run of this script) or from /opt/acv-build when the sources that
/opt/vp/build.sh mirrored there are byte-identical to /repo's. Everything else is compiled here.
Exit status: 0 and the library directory on stdout, or 3 (harness/build error).
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'build')
PY = '/opt/pypyvenv/bin/python'
FAST = '/opt/veriftools/pyvenv/bin/python'
SITE = '/opt/pypyvenv/lib/pypy3.9/site-packages'
OPT = '/opt/acv-build'
INC = ['-I/usr/include/pypy3.9', '-I/opt/pypyvenv/lib/pypy3.9/site-packages/numpy/core/include']
SUF = '.pypy39-pp73-x86_64-linux-gnu.so'
ENV = {'HOME': '/root', 'PATH': '/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8',
       'PYTHONDONTWRITEBYTECODE': '1'}


def sources(name):
    if name == 'cext_acv':
        d = 'acv_explainers/cext_acv'
        return sorted(os.path.join(d, f) for f in os.listdir(os.path.join(REPO, d))
                      if f.endswith(('.cc', '.cpp', '.c', '.h', '.hpp')))
    d = 'acv_explainers/cyext_acv'
    return sorted(os.path.join(d, f) for f in os.listdir(os.path.join(REPO, d))
                  if f == name + '.pyx' or f.endswith(('.pxd', '.pxi', '.h', '.hpp')))


NAMES = ['cext_acv', 'cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache']


def key(name):
    h = hashlib.sha256(b'v1')
    for s in sources(name):
        h.update(s.encode() + b'\0')
        with open(os.path.join(REPO, s), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def same_as_mirror(name):
    so = os.path.join(OPT, 'lib', name + SUF)
    if not os.path.exists(so):
        return None
    for s in sources(name):
        m = os.path.join(OPT, 'src', s)
        try:
            with open(m, 'rb') as f, open(os.path.join(REPO, s), 'rb') as g:
                if f.read() != g.read():
                    return None
            if os.path.getmtime(m) > os.path.getmtime(so) + 1 and name != 'cext_acv':
                return None
        except OSError:
            return None
    return so


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-3000:]))


def build_one(name, dest, extra=()):
    tmp = tempfile.mkdtemp(prefix='b-', dir=OUT)
    try:
        for s in sources(name):
            shutil.copy(os.path.join(REPO, s), tmp)
        if name == 'cext_acv':
            src = '_cext.cc'
            flags = ['-O2']
        else:
            src = name + '.cpp'
            links = os.path.join(tmp, 'links')
            os.mkdir(links)
            for p in ('Cython', 'numpy'):
                os.symlink(os.path.join(SITE, p), os.path.join(links, p))
            try:
                run([FAST, os.path.join(HERE, 'lib', 'cyrun.py'), links, '--cplus', name + '.pyx', '-o', src], tmp)
            except (RuntimeError, OSError):
                run([PY, '-m', 'cython', '--cplus', name + '.pyx', '-o', src], tmp)
            flags = [os.environ.get('VERIF_OPT', '-O0'), '-fopenmp']
        run(['g++', '-shared', '-fPIC', '-pthread', '-DNDEBUG', '-w'] + flags + list(extra) + INC
            + [src, '-o', 'out.so'], tmp)
        os.replace(os.path.join(tmp, 'out.so'), dest)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ensure():
    os.makedirs(os.path.join(OUT, 'ext'), exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        todo, keys, how = [], {}, {}
        for n in NAMES:
            keys[n] = key(n)
            dest = os.path.join(OUT, 'ext', '%s-%s.so' % (n, keys[n]))
            if os.path.exists(dest):
                how[n] = 'cached'
                continue
            so = same_as_mirror(n)
            if so:
                shutil.copy(so, dest + '.tmp')
                os.replace(dest + '.tmp', dest)
                how[n] = 'mirror'
            else:
                todo.append((n, dest))
                how[n] = 'built'
        if todo:
            with ThreadPoolExecutor(len(todo)) as ex:
                for f in [ex.submit(build_one, n, d) for n, d in todo]:
                    f.result()
        comb = hashlib.sha256(''.join(keys[n] for n in NAMES).encode()).hexdigest()[:16]
        lib = os.path.join(OUT, 'lib-' + comb)
        os.makedirs(lib, exist_ok=True)
        for n in NAMES:
            link = os.path.join(lib, n + SUF)
            if not os.path.exists(link):
                os.link(os.path.join(OUT, 'ext', '%s-%s.so' % (n, keys[n])), link)
        # bound the cache
        exts = sorted((os.path.join(OUT, 'ext', f) for f in os.listdir(os.path.join(OUT, 'ext'))),
                      key=os.path.getmtime)
        for p in exts[:-40]:
            os.unlink(p)
        return lib, how


if __name__ == '__main__':
    t = time.time()
    try:
        lib, how = ensure()
    except Exception as e:  # a build error is an error of the run, never a violation
        print('BUILD ERROR: %s' % e, file=sys.stderr)
        sys.exit(3)
    print(lib)
    print('extensions: %s (%.1fs)' % (how, time.time() - t), file=sys.stderr)
