"""Builds what the checks run, from /repo's current working tree.

Variants (each a directory that goes first on PYTHONPATH of the worker processes):
  pure  plain copy of the sources: pure Python mode (CPython and PyPy)
  cy    copy + extension modules compiled by Cython/gcc
  asan  the same, with AddressSanitizer
Everything lives in /verif/.cache (git-ignored), keyed by a hash of the sources, so a changed tree is rebuilt.
"""
import ast
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
PY = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
DEFAULT_FILES = ["capnpy/segment/base.pyx", "capnpy/segment/segment.py", "capnpy/segment/builder.pyx",
                 "capnpy/segment/endof.py", "capnpy/blob.py", "capnpy/enum.py", "capnpy/struct_.py",
                 "capnpy/list.py", "capnpy/type.py", "capnpy/message.py", "capnpy/buffered.py",
                 "capnpy/filelike.py", "capnpy/ptr.pyx", "capnpy/packing.pyx", "capnpy/_hash.pyx",
                 "capnpy/_util.pyx"]


class BuildError(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'LD_', 'ASAN', 'CFLAGS')) and k not in ('PWD', 'OLDPWD')}
    env.update(HOME=env.get('HOME', '/root'), LANG='C.UTF-8', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=os.environ.get('VERIF_HASHSEED', '0'),
               SETUPTOOLS_SCM_PRETEND_VERSION_FOR_CAPNPY='0.8.7',
               PYTHONNOUSERSITE='1')
    return env


def source_files():
    """Relative names of the source files of the package (no build products)."""
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'capnpy')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        names = set(files)
        for f in sorted(files):
            stem, ext = os.path.splitext(f)
            if ext in ('.so', '.pyc', '.html', '.o'):
                continue
            if ext == '.c' and (stem + '.py' in names or stem + '.pyx' in names):
                continue
            res.append(os.path.relpath(os.path.join(root, f), REPO))
    return res


def ext_files():
    try:
        tree = ast.parse(open(os.path.join(REPO, 'setup.py')).read())
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef) and node.name == 'get_cython_extensions':
                for st in node.body:
                    if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'files':
                        return ast.literal_eval(st.value)
    except Exception:
        pass
    return DEFAULT_FILES


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        if '/testing/' in f:
            continue
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    h.update(repr((ext_files(), FLAGS, CYTHON_BUGS)).encode())
    return h.hexdigest()[:20]


FLAGS = {
    'gen': ['-O0', '-g0'],
    'cy': ['-O1', '-g0'],
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
}


def gcc(cfile, out, variant, incs):
    cmd = ['gcc', '-shared', '-fPIC', '-fwrapv', '-DNDEBUG', '-w', '-fno-strict-aliasing'] + FLAGS[variant]
    cmd += ['-I' + i for i in incs] + [cfile, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=base_env())
    if p.returncode:
        raise BuildError(p.stdout.decode(errors='replace')[-3000:])


def py_include():
    p = subprocess.run([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                       stdout=subprocess.PIPE, env=base_env(), check=True)
    return p.stdout.decode().strip()


CYTHONIZE = r'''
import sys, os
from setuptools import Extension
from Cython.Build import cythonize
files = sys.argv[1:]
exts = [Extension(f.replace('/', '.').replace('.pyx', '').replace('.py', ''), [f], include_dirs=['capnpy'])
        for f in files]
cythonize(exts, language_level='2', nthreads=8, quiet=True)
'''


def _copy(dst):
    for f in source_files():
        if '/testing/' in f and '/testing/__init__' not in f:
            continue
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, f), d)


def _cythonize(dst, files):
    p = subprocess.run([PY, '-c', CYTHONIZE] + files, cwd=dst, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=base_env())
    if p.returncode:
        raise BuildError(p.stdout.decode(errors='replace')[-3000:])


# Code that Cython 3.3.1 (the compiler installed here) generates wrongly for when memory runs out; not capnpy's doing,
# so the C files are compiled without: an item released twice when the append of a list comprehension fails;
# uninitialised pointers released when the tuple for the keyword names of a constructor cannot be allocated.
CYTHON_BUGS = [
    ('int result = PyList_Append(list, x);\n    Py_DECREF(x);',
     'int result = PyList_Append(list, x);\n    if (result == 0) Py_DECREF(x);'),
    ('    PyObject * result = NULL;\n    PyObject *kwnames = NULL;\n    int unpack_dict_result;',
     '    memset(args, 0, ((size_t)total_size)*sizeof(PyObject*));\n'
     '    PyObject * result = NULL;\n    PyObject *kwnames = NULL;\n    int unpack_dict_result;'),
]


def _patch_c(cfile):
    with open(cfile) as f:
        src = f.read()
    new = src
    for old, fixed in CYTHON_BUGS:
        new = new.replace(old, fixed)
    if new != src:
        with open(cfile, 'w') as f:
            f.write(new)


class lock(object):
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def schema_dir():
    return os.path.join(HERE, 'schemas')


def schema_files():
    return sorted(f for f in os.listdir(schema_dir()) if f.endswith('.capnp'))


def schemas_hash():
    h = hashlib.sha256()
    for f in schema_files():
        h.update(f.encode() + open(os.path.join(schema_dir(), f), 'rb').read())
    return h.hexdigest()[:8]


GENPYX = r'''
import sys
from capnpy.compiler.compiler import StandaloneCompiler
from capnpy import annotate
import py, os
outdir = sys.argv[1]
flavours = (True, False) if sys.argv[2] == '1' else (False,)
for f in sys.argv[3:]:
    comp = StandaloneCompiler([os.path.dirname(f)] + sys.path)
    for pyx in flavours:
        m, src = comp.generate_py_source(py.path.local(f), pyx, annotate.Options.from_dict({}))
        # fixed module name: the pyx flavour gets the suffix _x, the py flavour _p
        base = os.path.splitext(os.path.basename(f))[0] + ('_x.pyx' if pyx else '_p.py')
        with open(os.path.join(outdir, base), 'w') as fp:
            fp.write(str(src))
'''


def ensure(variant, schemas=True):
    """Build the variant if needed; return its directory."""
    th = tree_hash()
    root = os.path.join(CACHE, th)
    with lock('build-' + th + '-' + variant):
        base = 'pure' if variant == 'pypy' else variant
        dst = os.path.join(root, base)
        mark = os.path.join(dst, '.done')
        if not os.path.exists(mark):
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            os.makedirs(dst)
            _copy(dst)
            if base in FLAGS:
                files = ext_files()
                _cythonize(dst, files)
                inc = [py_include(), os.path.join(dst, 'capnpy')]
                with ThreadPoolExecutor(8) as ex:
                    futs = []
                    # big files first
                    cs = []
                    for f in files:
                        stem = os.path.join(dst, os.path.splitext(f)[0])
                        _patch_c(stem + '.c')
                        cs.append((os.path.getsize(stem + '.c'), stem))
                    for _, stem in sorted(cs, reverse=True):
                        futs.append(ex.submit(gcc, stem + '.c', stem + SUFFIX, base, inc))
                    for fu in futs:
                        fu.result()
            open(mark, 'w').close()
    return dst


def ensure_schemas(variant, names=None):
    """Generate (and compile, for compiled variants) the modules of the given schemas; return their directory.
    The modules of the compiled flavours are shared by cy and asan (they access memory only through capnpy's own
    extension modules)."""
    base = 'pure' if variant in ('pure', 'pypy') else 'cy'
    dst = ensure(base)
    names = names or [f[:-6] for f in schema_files()]
    out = os.path.join(os.path.dirname(dst), 'schemas-%s-%s' % (schemas_hash(), base))
    with lock('schemas-' + os.path.basename(os.path.dirname(dst)) + '-' + base):
        os.makedirs(out, exist_ok=True)
        todo = [n for n in names if not os.path.exists(os.path.join(out, n + '.done'))]
        if not todo:
            return out
        p = subprocess.run([PY, '-c', GENPYX, out, '1' if base == 'cy' else '0'] +
                           [os.path.join(schema_dir(), n + '.capnp') for n in todo],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=worker_env(base))
        if p.returncode:
            raise BuildError('schema generation failed:\n' + p.stdout.decode(errors='replace')[-3000:])
        for n in todo:
            shutil.copy(os.path.join(schema_dir(), n + '.capnp'), out)
            with open(os.path.join(out, n + '.cgr'), 'wb') as fp:
                fp.write(subprocess.run(['capnp', 'compile', '-o-', '-I' + dst, n + '.capnp'], cwd=out, check=True,
                                        stdout=subprocess.PIPE, env=base_env()).stdout)
        if base == 'cy':
            code = ("import sys\nfrom Cython.Build import cythonize\nfrom setuptools import Extension\n"
                    "cythonize([Extension(f[:-4], [f]) for f in sys.argv[2:]], nthreads=8, quiet=True,"
                    " include_path=[sys.argv[1]])")
            e = base_env()
            e['PYTHONPATH'] = dst
            p = subprocess.run([PY, '-c', code, dst] + [n + '_x.pyx' for n in todo], cwd=out,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
            if p.returncode:
                raise BuildError('schema cythonize failed:\n' + p.stdout.decode(errors='replace')[-3000:])
            for n in todo:
                _patch_c(os.path.join(out, n + '_x.c'))
            inc = [py_include(), os.path.join(dst, 'capnpy')]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda n: gcc(os.path.join(out, n + '_x.c'), os.path.join(out, n + '_x' + SUFFIX),
                                          'gen', inc), todo))
        for n in todo:
            open(os.path.join(out, n + '.done'), 'w').close()
    return out


def libasan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE,
                          check=True).stdout.decode().strip()


def worker_env(variant, schemas=None):
    dst = ensure(variant)
    env = base_env()
    env['PYTHONPATH'] = os.pathsep.join([dst] + ([schemas] if schemas else []) + [VERIF])
    env['VERIF_SUT'] = dst
    env['VERIF_VARIANT'] = variant
    if variant == 'asan':
        env['LD_PRELOAD'] = libasan()
        env['ASAN_OPTIONS'] = ('detect_leaks=0:allocator_may_return_null=1:handle_segv=1:'
                               'detect_stack_use_after_return=0:quarantine_size_mb=64:exitcode=86:max_allocation_size_mb=2048')
        env['PYTHONMALLOC'] = 'malloc'
    return env


def interpreter(variant):
    return PYPY if variant == 'pypy' else PY


def prune(keep=6):
    """Remove old cached builds."""
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE)]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


if __name__ == '__main__':
    import time
    for v in sys.argv[1:] or ['pure', 'cy', 'asan']:
        t = time.time()
        print(v, ensure(v), '%.1fs' % (time.time() - t))
