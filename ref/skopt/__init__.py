try:
    __SKOPT_SETUP__
except NameError:
    __SKOPT_SETUP__ = False
__version__ = '0.9.0'
if __SKOPT_SETUP__:
    import sys
    sys.stderr.write('Partial import of skopt during the build process.\n')
else:
    import platform
    import struct
    from . import acquisition
    from . import benchmarks
    from . import callbacks
    from . import learning
    from . import optimizer
    from . import space
    from . import sampler
    from .optimizer import dummy_minimize
    from .optimizer import forest_minimize
    from .optimizer import gbrt_minimize
    from .optimizer import gp_minimize
    from .optimizer import Optimizer
    from .searchcv import BayesSearchCV
    from .space import Space
    from .utils import dump
    from .utils import expected_minimum
    from .utils import expected_minimum_random_sampling
    from .utils import load
    __all__ = ('acquisition', 'benchmarks', 'callbacks', 'learning', 'optimizer', 'plots', 'sampler', 'space', 'gp_minimize', 'dummy_minimize', 'forest_minimize', 'gbrt_minimize', 'Optimizer', 'dump', 'load', 'expected_minimum', 'BayesSearchCV', 'Space')
    IS_PYPY = platform.python_implementation() == 'PyPy'
    _IS_32BIT = 8 * struct.calcsize('P') == 32
