"""setup_cmd: nothing to build; confirms that the offline environment can run the checks"""
import sys
from .boot import boot

if __name__ == '__main__':
    boot()
    import hypothesis
    import numpy
    import x7.geom
    print('ok: python %s hypothesis %s numpy %s x7.geom %s' % (
        sys.version.split()[0], hypothesis.__version__, numpy.__version__, x7.geom.__file__))
