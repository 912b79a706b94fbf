"""Build the Cython extensions of /repo's *current working tree* outside /repo.

The python modules are always imported from /repo/src itself.  Extension modules are compiled from
/repo/src/**/*.pyx into /verif/.build/ (one cache entry per extension, keyed by the *content* of the .pyx, of all
.pxd/.pxi files, of setup.py and of the interpreter) and are put in front of sys.meta_path, so that a stale .so lying
in /repo/src is never used.  The .so files in /repo/src are reused only if /repo/build/.source-sums (written by the
repository's build) proves by content hash that they were made from exactly the present sources.
"""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
EXT = sysconfig.get_config_var('EXT_SUFFIX') or '.cpython-312-x86_64-linux-gnu.so'
BASE = os.path.join(VERIF, '.build')


def _sha(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _walk(suffixes):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith(suffixes):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def _known_sums():
    """Content hashes of the sources /repo's present build products were made from ({} if unknown)."""
    try:
        with open(os.path.join(REPO, 'build', '.source-sums')) as f:
            return {l[66:].strip(): l[:64] for l in f if l.strip()}
    except OSError:
        return {}


def _compile(todo):
    """Compile the extensions in ``todo`` (list of (pyx relative path, cache file)) in one scratch tree."""
    tmp = os.path.join(BASE, 'tree.%d' % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
            dirs[:] = [d for d in dirs if d != '__pycache__']
            rel = os.path.relpath(root, REPO)
            os.makedirs(os.path.join(tmp, rel), exist_ok=True)
            for f in files:
                if not f.endswith(('.so', '.cpp', '.pyc')):
                    shutil.copy2(os.path.join(root, f), os.path.join(tmp, rel, f))
        script = (
            "import sys, os, numpy\n"
            "sys.path.insert(0, 'src')\n"
            "os.environ['CPATH'] = numpy.get_include()\n"
            "from distutils.extension import Extension\n"
            "from setuptools import setup\n"
            "from Cython.Build import cythonize\n"
            "if __name__ == '__main__':\n"
            "    mods = cythonize(%r, language='c++', include_path=[numpy.get_include()], nthreads=6)\n"
            "    setup(name='x', packages=[], package_dir={'': 'src'}, ext_modules=mods)\n"
        ) % ([p for p, _ in todo],)
        with open(os.path.join(tmp, 'build_one.py'), 'w') as f:
            f.write(script)
        env = dict(os.environ, HOME='/root', PIP_NO_INDEX='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   PYTHONPATH=os.path.join(tmp, 'src'))
        env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
        r = subprocess.run([PY, 'build_one.py', 'build_ext', '-b', 'out', '-j', '8'], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace')[-6000:])
            raise SystemExit(3)
        for p, cache in todo:
            so = os.path.join(tmp, 'out', os.path.splitext(os.path.relpath(p, 'src'))[0] + EXT)
            shutil.move(so, cache + '.new')
            os.replace(cache + '.new', cache)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build():
    """Return {module name: path of its extension} for the current tree (building what is not cached)."""
    os.makedirs(BASE, exist_ok=True)
    headers = hashlib.sha256()
    for p in _walk(('.pxd', '.pxi')) + ['setup.py']:
        headers.update(p.encode() + b'\0' + _sha(os.path.join(REPO, p)).encode())
    headers.update(sys.version.encode())
    known = _known_sums()
    now = {p: _sha(os.path.join(REPO, p)) for p in _walk(('.pxd', '.pxi', '.pyx')) + ['setup.py']}
    fresh = all(known.get(p) == h for p, h in now.items() if not p.endswith('.pyx')) and \
        all(p in now for p in known if p.endswith(('.pxd', '.pxi')))
    lock = open(os.path.join(BASE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        result, todo = {}, []
        for p in _walk(('.pyx',)):
            mod = os.path.splitext(os.path.relpath(p, 'src'))[0].replace(os.sep, '.')
            key = hashlib.sha256(headers.digest() + p.encode() + now[p].encode()).hexdigest()[:24]
            cache = os.path.join(BASE, '%s.%s.so' % (mod, key))
            result[mod] = cache
            if os.path.exists(cache):
                os.utime(cache)
                continue
            have = os.path.join(REPO, os.path.splitext(p)[0] + EXT)
            if fresh and known.get(p) == now[p] and os.path.exists(have):
                shutil.copy2(have, cache + '.new')
                os.replace(cache + '.new', cache)
                os.utime(cache)
            else:
                todo.append((p, cache))
        if todo:
            _compile(todo)
        old = sorted((f for f in os.listdir(BASE) if f.endswith('.so')),
                     key=lambda f: os.path.getmtime(os.path.join(BASE, f)))
        for f in old[:-60]:
            os.unlink(os.path.join(BASE, f))
        return result
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class _ExtFinder:
    def __init__(self, mapping):
        self.map = mapping

    def find_spec(self, name, path=None, target=None):
        p = self.map.get(name)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


def install():
    """Build, and make ``import jpt`` use /repo/src + the freshly built extensions."""
    mapping = build()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _ExtFinder(mapping))
    sys.path.insert(0, os.path.join(REPO, 'src'))
    return mapping


if __name__ == '__main__':
    for m, f in build().items():
        print(m, f)
