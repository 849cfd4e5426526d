from .forest import RandomForestRegressor
from .forest import ExtraTreesRegressor
from .gaussian_process import GaussianProcessRegressor
from .gbrt import GradientBoostingQuantileRegressor
__all__ = ('RandomForestRegressor', 'ExtraTreesRegressor', 'GradientBoostingQuantileRegressor', 'GaussianProcessRegressor')
