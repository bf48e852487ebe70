"""pytest plugin: runs the whole of /repo's test suite under the stand-ins.

    cd /repo && PYTHONPATH=/verif $PY -m pytest -p mc.fullsuite tests

This is how the stand-in for pyelliptic is validated: every test that the
stable set cannot reach runs against it.
"""
from mc import load

load.load()
