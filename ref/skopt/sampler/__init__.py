from .lhs import Lhs
from .sobol import Sobol
from .halton import Halton
from .hammersly import Hammersly
from .grid import Grid
from .base import InitialPointGenerator
__all__ = ['Lhs', 'Sobol', 'Halton', 'Hammersly', 'Grid', 'InitialPointGenerator']
