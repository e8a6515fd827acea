"""Bootstraps the code under test from /repo's current working tree.

Python modules are imported in place from /repo/src (no bytecode is read from or
written to /repo); the Cython extensions are always compiled from the current
.pyx sources into a content-addressed cache outside /repo, so a stale .so in
/repo can never be tested by mistake.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
SRC = REPO / 'src'
PKG = SRC / 'eventio'
CACHE = VERIF / '.cache'
VENV_PY = '/opt/venv/bin/python'
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CFLAGS = [
    '-fPIC', '-shared', '-w', '-fwrapv',
    '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
    '-DNPY_TARGET_VERSION=NPY_1_21_API_VERSION',
]
FLAVOURS = {
    'opt': ['-O1'],
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'],
}


class BuildError(Exception):
    pass


def _ext_sources():
    out = {}
    for p in sorted(PKG.rglob('*.pyx')):
        name = '.'.join(p.relative_to(SRC).with_suffix('').parts)
        out[name] = p
    return out


def _key(flavour):
    h = hashlib.sha256()
    for p in sorted([*PKG.rglob('*.pyx'), *PKG.rglob('*.pxd'), *PKG.rglob('*.pxi')]):
        h.update(str(p.relative_to(SRC)).encode() + b'\0' + p.read_bytes() + b'\0')
    h.update(repr((CFLAGS, FLAVOURS[flavour], sys.version)).encode())
    return h.hexdigest()[:20]


def _build_one(name, pyx, out, flavour, include):
    stem = name.replace('.', '_')
    c = out / (stem + '.c')
    r = subprocess.run(
        [VENV_PY, '-m', 'cython', '-3', '--module-name', name, str(pyx), '-o', str(c)],
        capture_output=True, text=True, cwd=str(SRC),
    )
    if r.returncode:
        raise BuildError('cython %s:\n%s%s' % (name, r.stdout, r.stderr))
    so = out / (stem + '.so')
    r = subprocess.run(
        ['gcc', *CFLAGS, *FLAVOURS[flavour], *include, str(c), '-o', str(so)],
        capture_output=True, text=True,
    )
    if r.returncode:
        raise BuildError('gcc %s:\n%s' % (name, r.stderr[-3000:]))
    c.unlink()


def build(flavour='opt'):
    """Compile the extensions of the current tree; returns the directory with the .so files."""
    target = CACHE / (flavour + '-' + _key(flavour))
    if (target / 'ok').exists():
        return target
    CACHE.mkdir(exist_ok=True)
    r = subprocess.run(
        [VENV_PY, '-c', 'import numpy; print(numpy.get_include())'],
        capture_output=True, text=True, check=True)
    include = ['-I', r.stdout.strip(), '-I', sysconfig.get_paths()['include']]
    tmp = pathlib.Path(tempfile.mkdtemp(dir=CACHE, prefix='build-'))
    try:
        srcs = _ext_sources()
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda kv: _build_one(kv[0], kv[1], tmp, flavour, include), srcs.items()))
        (tmp / 'ok').write_text('\n'.join(srcs))
        try:
            tmp.rename(target)
        except OSError:
            if not (target / 'ok').exists():
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return target


class _Finder:
    def __init__(self, libdir):
        self.map = {}
        for name in (libdir / 'ok').read_text().split():
            self.map[name] = str(libdir / (name.replace('.', '_') + '.so'))

    def find_spec(self, name, path=None, target=None):
        so = self.map.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(libdir):
    """Make `import eventio` use /repo/src and the freshly built extensions."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = str(VERIF / '.cache' / 'no-pyc')
    sys.meta_path.insert(0, _Finder(pathlib.Path(libdir)))
    sys.path.insert(0, str(SRC))
    if TOOLS_SITE not in sys.path:
        sys.path.append(TOOLS_SITE)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import eventio
    f = pathlib.Path(eventio.__file__).resolve()
    if not str(f).startswith(str(SRC.resolve()) + '/'):
        raise BuildError('eventio imported from %s' % f)
    return eventio
