"""Environment of every check: imports the code under test from /repo's working tree.

Must be imported before numpy.  Stale bytecode can never stand in for a changed source file
(the bytecode cache is redirected to a directory that does not exist), and nothing is written
into /repo.
"""
import os
import sys

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-pycache'

import warnings
warnings.simplefilter('ignore')

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'

import numpy
import scipy.linalg
import scipy.optimize
from lib import seam  # installs the random number seam before the library is imported

seam.install()
numpy.seterr(all='ignore')


def use_config(conf):
    """conf: 'pure' (fallback modules) or a directory with the compiled extensions."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if conf == 'pure':
        sys.modules['pyparticleest.utils.ckalman'] = None
        sys.modules['pyparticleest.utils.cmlnlg_compute'] = None
    else:
        import pyparticleest.utils
        pyparticleest.utils.__path__.append(os.path.join(conf, 'pyparticleest', 'utils'))
        import pyparticleest.utils.ckalman
        import pyparticleest.utils.cmlnlg_compute
        assert pyparticleest.utils.ckalman.__file__.startswith(conf)
    import pyparticleest
    import pyparticleest.filter
    assert os.path.realpath(pyparticleest.filter.__file__).startswith(os.path.realpath(REPO) + '/'), \
        pyparticleest.filter.__file__


def build_ext(workdir):
    """Compile /repo's .pyx files into workdir (a scratch directory); returns workdir."""
    import shutil
    import subprocess
    import glob
    src = os.path.join(REPO, 'pyparticleest')
    for root, dirs, files in os.walk(src):
        for fn in files:
            if fn.endswith(('.pyx', '.pxd', '.pxi')) or fn == '__init__.py':
                rel = os.path.relpath(os.path.join(root, fn), REPO)
                dst = os.path.join(workdir, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(os.path.join(root, fn), dst)
    cenv = dict(os.environ)
    cenv['CFLAGS'] = '-O1 -w -I' + numpy.get_include()
    cyt = os.path.join(os.path.dirname(sys.executable), 'cythonize')
    procs = []
    for m in ('ckalman', 'cmlnlg_compute'):
        procs.append((m, subprocess.Popen([cyt, '-q', '-i', 'pyparticleest/utils/%s.pyx' % m],
                                          cwd=workdir, env=cenv, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT)))
    for m, p in procs:
        out = p.communicate()[0]
        if p.returncode != 0 or not glob.glob(os.path.join(workdir, 'pyparticleest/utils/%s.*.so' % m)):
            sys.stderr.write(out.decode('utf-8', 'replace'))
            raise RuntimeError('extension %s does not build' % m)
    return workdir
