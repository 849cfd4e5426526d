from .base import base_minimize
from .dummy import dummy_minimize
from .forest import forest_minimize
from .gbrt import gbrt_minimize
from .gp import gp_minimize
from .optimizer import Optimizer
__all__ = ['base_minimize', 'dummy_minimize', 'forest_minimize', 'gbrt_minimize', 'gp_minimize', 'Optimizer']
