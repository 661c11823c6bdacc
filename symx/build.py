"""Builds the current .pyx sources in a scratch directory and loads them (replays).

C rand() is replaced by a scripted source so that a solver counterexample can be
replayed through compiled code; numpy.random inside the module is scripted too.
"""
import ctypes
import fcntl
import hashlib
import importlib
import os
import shutil
import subprocess
import sys
import sysconfig

from . import load

_DIR = [None]
_VR = [None]


def _files():
    out = []
    for d, _, fs in os.walk(load.SRC):
        for f in sorted(fs):
            if f.endswith(('.pyx', '.pxd')):
                out.append(os.path.join(d, f))
    return sorted(out)


def scratch():
    if _DIR[0]:
        return _DIR[0]
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode())
        with open(f, 'rb') as g:
            h.update(g.read())
    base = os.environ.get('VERIF_SCRATCH', '/tmp')
    d = os.path.join(base, 'verif_ext_%s' % h.hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'done')):
            pkg = os.path.join(d, 'MTfit')
            if os.path.exists(pkg):
                shutil.rmtree(pkg)
            shutil.copytree(os.path.join(load.SRC, 'MTfit'), pkg, ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', 'tests', 'docs'))
            with open(os.path.join(d, 'vr.c'), 'w') as f:
                f.write('#include <stdlib.h>\nstatic int *q; static int n, i;\n'
                        'void verif_set(int *a, int m) { q = a; n = m; i = 0; }\n'
                        'int verif_rand(void) { if (i < n) return q[i++]; return rand(); }\n')
            env = dict(os.environ)
            subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', 'libvr.so', 'vr.c'], cwd=d, env=env)
            procs = []
            for name, rel in load.EXT.items():
                procs.append((name, subprocess.Popen([sys.executable, '-c', _BUILD, rel], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            err = []
            for name, p in procs:
                o = p.communicate()[0].decode(errors='replace')
                if p.returncode:
                    err.append('%s: %s' % (name, o[-1500:]))
            if err:
                raise RuntimeError('building the extensions failed: ' + '\n'.join(err))
            open(os.path.join(d, 'done'), 'w').close()
    _DIR[0] = d
    return d


_BUILD = r'''
import sys, os, subprocess, sysconfig, numpy
from Cython.Compiler import Main
pyx = sys.argv[1]
c = pyx[:-4] + '.c'
r = Main.compile_single(pyx, Main.CompilationOptions(Main.default_options, output_file=c, include_path=['.'], language_level=2), full_module_name=pyx[:-4].replace('/', '.'))
if r.num_errors:
    sys.exit(1)
so = pyx[:-4] + sysconfig.get_config_var('EXT_SUFFIX')
subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-w', '-D_GNU_SOURCE', '-include', 'stdlib.h', '-Drand=verif_rand', '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), c, '-o', so, '-L.', '-lvr', '-Wl,-rpath,' + os.path.abspath('.')])
'''


def load_ext(name):
    d = scratch()
    if 'MTfit' in sys.modules and not str(sys.modules['MTfit'].__file__).startswith(d):
        raise RuntimeError('another MTfit is already imported')
    if d not in sys.path:
        sys.path.insert(0, d)
    if 'MTfit' not in sys.modules:
        # stub package: only submodules are needed
        import types
        m = types.ModuleType('MTfit')
        m.__path__ = [os.path.join(d, 'MTfit')]
        m.__file__ = os.path.join(d, 'MTfit', '__init__.py')
        m.__version__ = 'verif'
        sys.modules['MTfit'] = m
        for sub in ('probability', 'convert', 'algorithms', 'extensions', 'utilities'):
            s = types.ModuleType('MTfit.' + sub)
            s.__path__ = [os.path.join(d, 'MTfit', sub)]
            s.__package__ = 'MTfit.' + sub
            sys.modules['MTfit.' + sub] = s
            setattr(m, sub, s)
    mod = importlib.import_module(name)
    mod.np = load.NpProxy()
    return mod


def script_rand(values):
    """values in [0,1] for successive rand()/RAND_MAX"""
    d = scratch()
    if _VR[0] is None:
        _VR[0] = ctypes.CDLL(os.path.join(d, 'libvr.so'))
    a = (ctypes.c_int * max(1, len(values)))(*[int(round(v * 2147483647)) for v in values])
    _VR[0].verif_set(a, len(values))
    return a
