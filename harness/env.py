"""Puts the code under test on the path, from the current working tree of /repo."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


def setup():
    """Scratch cwd, no bytecode in the tree, headless plots, assimulo stand-in."""
    global _scratch
    if _scratch is not None:
        return _scratch
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    _scratch = tempfile.mkdtemp(prefix='verif_sloth_')
    if not (os.environ.get('MPLCONFIGDIR') and os.path.isdir(os.environ['MPLCONFIGDIR'])):
        os.environ['MPLCONFIGDIR'] = '/opt/mplconfig' if os.path.isdir('/opt/mplconfig') else os.path.join(_scratch, 'mpl')
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(_scratch, 'numba')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    os.chdir(_scratch)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            os.chdir('/')
            shutil.rmtree(_scratch, ignore_errors=True)
    atexit.register(clean)
    warnings.filterwarnings('ignore')
    from . import assimulo_stub
    assimulo_stub.install()
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    import sloth
    got = list(sloth.__path__)[0] if getattr(sloth, '__path__', None) else sloth.__file__
    if not os.path.realpath(got).startswith(os.path.realpath(src)):
        raise RuntimeError("sloth was imported from %s, not from %s" % (got, src))
    return _scratch
