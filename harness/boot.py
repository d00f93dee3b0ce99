"""
Import plumbing: makes the working tree of gribbg/x7-geom importable next to hypothesis.

* The code under test comes from /repo (or --src DIR, used only while developing the checks).
* hypothesis comes from the pre-installed tool environment; it is appended to the end of sys.path so that
  the numpy/scipy/pillow of the project's own environment keep winning.
* x7.geom.plot_viewer selects the TkAgg backend when it is imported, which needs an X display; the checks never
  open a window, so matplotlib.use() is neutralised during that import.
"""
import glob
import os
import sys

TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)"""


def boot(src='/repo'):
    src = os.path.abspath(src)
    if src != '/repo':
        for name, mod in list(sys.modules.items()):
            if name.startswith('__editable___x7_geom'):
                mod.MAPPING['x7'] = os.path.join(src, 'x7')
    _boot_hypothesis()
    import matplotlib
    real_use = matplotlib.use
    matplotlib.use = lambda *a, **k: None
    try:
        import x7.geom.utils    # noqa
    except ImportError:
        # tkinter itself is unavailable: a stand-in for the viewer window, which no check uses
        import types
        stub = types.ModuleType('x7.geom.plot_viewer')
        stub.PlotViewer = object
        sys.modules['x7.geom.plot_viewer'] = stub
        sys.modules.pop('x7.geom.utils', None)
        import x7.geom.utils    # noqa
    finally:
        matplotlib.use = real_use
    import x7.geom
    where = os.path.realpath(x7.geom.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise HarnessError('x7.geom imported from %s, not from %s' % (where, src))


def _boot_hypothesis():
    if os.path.isdir(TOOLS):
        sys.path.append(TOOLS)
    try:
        import hypothesis   # noqa
        return
    except ImportError:
        pass
    import tempfile
    import zipfile
    tmp = tempfile.mkdtemp(prefix='verif-hyp-')
    for pat in ('hypothesis-*', 'sortedcontainers-*', 'attrs-*'):
        for whl in glob.glob(os.path.join(WHEELS, pat + '.whl')):
            with zipfile.ZipFile(whl) as zf:
                zf.extractall(tmp)
    sys.path.append(tmp)
    import hypothesis       # noqa
