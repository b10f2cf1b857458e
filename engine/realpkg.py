"""Makes the real package importable: the repository itself when its extension modules match its sources, otherwise a
scratch copy in which the changed extensions are rebuilt."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')


def stale(repo=REPO):
    """the .pyx files whose compiled module is missing or was built from other contents"""
    try:
        with open(os.path.join(repo, 'build', 'ext-hashes.json')) as f:
            known = json.load(f).get('pyx', {})
    except (OSError, ValueError):
        known = {}
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'copulae')):
        for f in fs:
            if f.endswith('.pyx'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                with open(p, 'rb') as h:
                    sha = hashlib.sha256(h.read()).hexdigest()
                so = any(x.startswith(f[:-4] + '.') and x.endswith('.so') for x in fs)
                if known.get(rel) != sha or not so:
                    out.append(rel)
    return out


def prepare(repo=REPO):
    """-> (directory to put on sys.path, scratch directory to delete or None)"""
    changed = stale(repo)
    if not changed:
        return repo, None
    tmp = tempfile.mkdtemp(prefix='verif-build-')
    dst = os.path.join(tmp, 'repo')
    os.mkdir(dst)
    for n in ('copulae', 'setup.py', 'setup.cfg', 'README.md', 'pyproject.toml', 'MANIFEST.in', 'versioneer.py', 'version.py'):
        src = os.path.join(repo, n)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(dst, n), ignore=shutil.ignore_patterns('__pycache__'))
        elif os.path.exists(src):
            shutil.copy(src, dst)
    for rel in changed:
        base = os.path.join(dst, rel[:-4])
        d = os.path.dirname(base)
        for f in os.listdir(d):
            if f.startswith(os.path.basename(base) + '.') and not f.endswith('.pyx') and not f.endswith('.pyi'):
                os.unlink(os.path.join(d, f))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', '4'], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError('the extension modules do not build:\n' + r.stdout[-3000:])
    return dst, tmp
