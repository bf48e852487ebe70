"""Loads golem_messages from the *current* working tree of /repo.

The package is copied into a scratch directory (that is the whole build of a
pure Python package), given the RELEASE-VERSION file which the release process
generates, and imported with the stand-in for pyelliptic on the path.
"""
import atexit
import functools
import os
import pathlib
import shutil
import sys
import tempfile
import types
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MC_REPO', '/repo'))
RELEASE = '3.14.2'

_STATE = {}


def scratch_root():
    return _STATE['root']


def _cleanup(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def prepare_environment():
    """Third-party shims only; nothing of the code under test is replaced."""
    warnings.simplefilter('ignore')
    # `bitcoin` does `from _functools import reduce`, which is a detail of
    # CPython; PyPy keeps it only in functools
    try:
        import _functools
    except ImportError:
        _functools = types.ModuleType('_functools')
        sys.modules['_functools'] = _functools
    if not hasattr(_functools, 'reduce'):
        _functools.reduce = functools.reduce
    # eth_rlp wants eth_utils.toolz, which later eth_utils versions provide
    # as a re-export of toolz
    try:
        import eth_utils.toolz  # noqa
    except ImportError:
        import eth_utils
        import toolz
        sys.modules['eth_utils.toolz'] = toolz
        eth_utils.toolz = toolz
    shims = str(VERIF / 'shims')
    if shims not in sys.path:
        sys.path.insert(0, shims)


def load():
    """Copies and imports the package; returns the scratch package path"""
    if 'pkg' in _STATE:
        return _STATE['pkg']
    sys.dont_write_bytecode = True
    prepare_environment()
    root = pathlib.Path(tempfile.mkdtemp(prefix='mc-golem-'))
    atexit.register(_cleanup, str(root), os.getpid())
    shutil.copytree(
        str(REPO / 'golem_messages'),
        str(root / 'golem_messages'),
        ignore=shutil.ignore_patterns('__pycache__', '*.pyc'),
    )
    (root / 'golem_messages' / 'RELEASE-VERSION').write_text(RELEASE)
    sys.path.insert(0, str(root))
    _STATE['root'] = root
    _STATE['pkg'] = root / 'golem_messages'
    import golem_messages
    assert pathlib.Path(golem_messages.__file__).parent == _STATE['pkg']
    return _STATE['pkg']
