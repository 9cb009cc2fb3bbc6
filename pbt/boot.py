"""Prepare the interpreter: import moirae from /repo and Hypothesis from the tooling venv.

The repository's environment (/opt/venv) has the dependencies of moirae but not Hypothesis, which lives in the
tooling environment of the same Python version. Only the packages named below are taken from there.
"""
import atexit
import os
import shutil
import sys
import tempfile

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
sys.dont_write_bytecode = True

REPO = os.environ.get('MOIRAE_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ALLOWED = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis')


class _ToolFinder:
    """Finds only the listed packages in the tooling environment"""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        root = name.split('.')[0]
        if path is None and (root in ALLOWED or root.startswith('_hypothesis')):
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [TOOLS], target)
        return None


def install():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_ToolFinder)
    # Hypothesis writes nothing: no database, no storage directory for unicode or constants
    if 'HYPOTHESIS_STORAGE_DIRECTORY' not in os.environ:
        scratch = os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = tempfile.mkdtemp(prefix='hyp-')
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    import hypothesis  # noqa: F811
    import moirae
    where = os.path.dirname(os.path.abspath(moirae.__file__))
    if where != os.path.join(os.path.abspath(REPO), 'moirae'):
        raise RuntimeError(f'moirae was imported from {where} rather than {REPO}')
    return hypothesis


install()
