"""Environment for a check: pinned interpreter, pinned variables, hypothesis.

The interpreter of the repository (/opt/venv) has no hypothesis and must not be
modified, so the wheel of the offline wheelhouse is unpacked once into
/verif/.deps (ignored by git); a check does that itself when setup_cmd's copy
is not there.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

PY = '/opt/venv/bin/python'
WHEELS = '/opt/veriftools/wheels'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, '.deps')
REPO = os.environ.get('VERIF_REPO', '/repo')

ENV = {
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'CHAINER_DEBUG': '0',
    'GIT_CONFIG_COUNT': '1',
    'GIT_CONFIG_KEY_0': 'safe.directory',
    'GIT_CONFIG_VALUE_0': '*',
    'MPLBACKEND': 'Agg',
}


def _unpack(dest):
    os.makedirs(dest, exist_ok=True)
    tag = 'cp{}{}'.format(*sys.version_info[:2])
    for pat in ('hypothesis-*-{0}-{0}-*.whl'.format(tag),
                'sortedcontainers-*.whl', 'attrs-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError('no wheel for ' + pat)
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(dest)


def ensure_deps():
    if os.path.exists(os.path.join(DEPS, 'hypothesis', '__init__.py')):
        return DEPS
    try:
        tmp = tempfile.mkdtemp(prefix='.deps_tmp', dir=HERE)
        _unpack(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return DEPS
    except OSError:
        tmp = tempfile.mkdtemp(prefix='pbt_deps')
        _unpack(tmp)
        return tmp


def reexec_if_needed():
    """Run under the repository's interpreter with the pinned environment."""
    want = dict(ENV)
    ok = os.path.realpath(sys.executable) == os.path.realpath(PY) and \
        sys.prefix == '/opt/venv' and \
        all(os.environ.get(k) == v for k, v in want.items())
    if ok or os.environ.get('PBT_REEXEC') == '1':
        return
    env = dict(os.environ)
    env.update(want)
    env['PBT_REEXEC'] = '1'
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, '-W', 'ignore'] + sys.argv, env)


def setup_paths():
    deps = ensure_deps()
    for p in (deps, HERE, REPO):
        while p in sys.path:
            sys.path.remove(p)
    # the repository wins over an installed copy
    sys.path.insert(0, deps)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
