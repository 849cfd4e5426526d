from copy import deepcopy
from functools import wraps
from sklearn.utils import check_random_state
import numpy as np
from scipy.optimize import OptimizeResult
from scipy.optimize import minimize as sp_minimize
from sklearn.base import is_regressor
from sklearn.ensemble import GradientBoostingRegressor
from joblib import dump as dump_
from joblib import load as load_
from collections import OrderedDict
from .learning import ExtraTreesRegressor
from .learning import GaussianProcessRegressor
from .learning import GradientBoostingQuantileRegressor
from .learning import RandomForestRegressor
from .learning.gaussian_process.kernels import ConstantKernel
from .learning.gaussian_process.kernels import HammingKernel
from .learning.gaussian_process.kernels import Matern
from .sampler import Sobol, Lhs, Hammersly, Halton, Grid
from .sampler import InitialPointGenerator
from .space import Space, Categorical, Integer, Real, Dimension
__all__ = ('load', 'dump')

def create_result(Xi, yi, space=None, rng=None, specs=None, models=None):
    res = OptimizeResult()
    yi = np.asarray(yi)
    if np.ndim(yi) == 2:
        res.log_time = np.ravel(yi[:, 1])
        yi = np.ravel(yi[:, 0])
    best = np.argmin(yi)
    res.x = Xi[best]
    res.fun = yi[best]
    res.func_vals = yi
    res.x_iters = list(Xi)
    res.models = None if models is None else list(models)
    res.space = space
    res.random_state = rng
    res.specs = specs
    return res

def eval_callbacks(callbacks, result):
    stop = False
    if callbacks:
        for c in callbacks:
            decision = c(result)
            if decision is not None:
                stop = stop or decision
    return stop

def dump(res, filename, store_objective=True, **kwargs):
    if store_objective:
        dump_(res, filename, **kwargs)
    elif 'func' in res.specs['args']:
        res_without_func = deepcopy(res)
        del res_without_func.specs['args']['func']
        dump_(res_without_func, filename, **kwargs)
    else:
        dump_(res, filename, **kwargs)

def load(filename, **kwargs):
    return load_(filename, **kwargs)

def is_listlike(x):
    return isinstance(x, (list, tuple))

def is_2Dlistlike(x):
    return np.all([is_listlike(xi) for xi in x])

def check_x_in_space(x, space):
    if is_2Dlistlike(x):
        if not np.all([p in space for p in x]):
            raise ValueError('Not all points are within the bounds of the space.')
        if any([len(p) != len(space.dimensions) for p in x]):
            raise ValueError('Not all points have the same dimensions as the space.')
    elif is_listlike(x):
        if x not in space:
            raise ValueError('Point (%s) is not within the bounds of the space (%s).' % (x, space.bounds))
        if len(x) != len(space.dimensions):
            raise ValueError('Dimensions of point (%s) and space (%s) do not match' % (x, space.bounds))

def expected_minimum(res, n_random_starts=20, random_state=None):
    if res.space.is_partly_categorical:
        return expected_minimum_random_sampling(res, n_random_starts=100000, random_state=random_state)

    def func(x):
        reg = res.models[-1]
        x = res.space.transform(x.reshape(1, -1))
        return reg.predict(x.reshape(1, -1))[0]
    xs = [res.x]
    if n_random_starts > 0:
        xs.extend(res.space.rvs(n_random_starts, random_state=random_state))
    best_x = None
    best_fun = np.inf
    for x0 in xs:
        r = sp_minimize(func, x0=x0, bounds=res.space.bounds)
        if r.fun < best_fun:
            best_x = r.x
            best_fun = r.fun
    return ([v for v in best_x], best_fun)

def expected_minimum_random_sampling(res, n_random_starts=100000, random_state=None):
    random_samples = res.space.rvs(n_random_starts, random_state=random_state)
    model = res.models[-1]
    y_random = model.predict(res.space.transform(random_samples))
    index_best_objective = np.argmin(y_random)
    min_x = random_samples[index_best_objective]
    return (min_x, y_random[index_best_objective])

def has_gradients(estimator):
    tree_estimators = (ExtraTreesRegressor, RandomForestRegressor, GradientBoostingQuantileRegressor)
    if estimator is None:
        return False
    if isinstance(estimator, tree_estimators):
        return False
    categorical_gp = False
    if hasattr(estimator, 'kernel'):
        params = estimator.get_params()
        categorical_gp = isinstance(estimator.kernel, HammingKernel) or any([isinstance(params[p], HammingKernel) for p in params])
    return not categorical_gp

def cook_estimator(base_estimator, space=None, **kwargs):
    if isinstance(base_estimator, str):
        base_estimator = base_estimator.upper()
        if base_estimator not in ['GP', 'ET', 'RF', 'GBRT', 'DUMMY']:
            raise ValueError("Valid strings for the base_estimator parameter  are: 'RF', 'ET', 'GP', 'GBRT' or 'DUMMY' not %s." % base_estimator)
    elif not is_regressor(base_estimator):
        raise ValueError('base_estimator has to be a regressor.')
    if base_estimator == 'GP':
        if space is not None:
            space = Space(space)
            space = Space(normalize_dimensions(space.dimensions))
            n_dims = space.transformed_n_dims
            is_cat = space.is_categorical
        else:
            raise ValueError('Expected a Space instance, not None.')
        cov_amplitude = ConstantKernel(1.0, (0.01, 1000.0))
        if is_cat:
            other_kernel = HammingKernel(length_scale=np.ones(n_dims))
        else:
            other_kernel = Matern(length_scale=np.ones(n_dims), length_scale_bounds=[(0.01, 100)] * n_dims, nu=2.5)
        base_estimator = GaussianProcessRegressor(kernel=cov_amplitude * other_kernel, normalize_y=True, noise='gaussian', n_restarts_optimizer=2)
    elif base_estimator == 'RF':
        base_estimator = RandomForestRegressor(n_estimators=100, min_samples_leaf=3)
    elif base_estimator == 'ET':
        base_estimator = ExtraTreesRegressor(n_estimators=100, min_samples_leaf=3)
    elif base_estimator == 'GBRT':
        gbrt = GradientBoostingRegressor(n_estimators=30, loss='quantile')
        base_estimator = GradientBoostingQuantileRegressor(base_estimator=gbrt)
    elif base_estimator == 'DUMMY':
        return None
    if 'n_jobs' in kwargs.keys() and (not hasattr(base_estimator, 'n_jobs')):
        del kwargs['n_jobs']
    base_estimator.set_params(**kwargs)
    return base_estimator

def cook_initial_point_generator(generator, **kwargs):
    if generator is None:
        generator = 'random'
    elif isinstance(generator, str):
        generator = generator.lower()
        if generator not in ['sobol', 'halton', 'hammersly', 'lhs', 'random', 'grid']:
            raise ValueError("Valid strings for the generator parameter  are: 'sobol', 'lhs', 'halton', 'hammersly','random', or 'grid' not %s." % generator)
    elif not isinstance(generator, InitialPointGenerator):
        raise ValueError('generator has to be an InitialPointGenerator.Got %s' % str(type(generator)))
    if isinstance(generator, str):
        if generator == 'sobol':
            generator = Sobol()
        elif generator == 'halton':
            generator = Halton()
        elif generator == 'hammersly':
            generator = Hammersly()
        elif generator == 'lhs':
            generator = Lhs()
        elif generator == 'grid':
            generator = Grid()
        elif generator == 'random':
            return None
    generator.set_params(**kwargs)
    return generator

def dimensions_aslist(search_space):
    params_space_list = [search_space[k] for k in sorted(search_space.keys())]
    return params_space_list

def point_asdict(search_space, point_as_list):
    params_dict = OrderedDict()
    for k, v in zip(sorted(search_space.keys()), point_as_list):
        params_dict[k] = v
    return params_dict

def point_aslist(search_space, point_as_dict):
    point_as_list = [point_as_dict[k] for k in sorted(search_space.keys())]
    return point_as_list

def normalize_dimensions(dimensions):
    space = Space(dimensions)
    transformed_dimensions = []
    for dimension in space.dimensions:
        if isinstance(dimension, Dimension):
            dimension.set_transformer('normalize')
            transformed_dimensions.append(dimension)
        else:
            raise RuntimeError('Unknown dimension type (%s)' % type(dimension))
    return Space(transformed_dimensions)

def check_list_types(x, types):
    err = list(filter(lambda a: not isinstance(a, types), x))
    if len(err) > 0:
        msg = 'All elements in list must be instances of {}, but found: {}'
        msg = msg.format(types, err)
        raise ValueError(msg)

def check_dimension_names(dimensions):
    err_dims = list(filter(lambda dim: dim.name is None, dimensions))
    if len(err_dims) > 0:
        msg = 'All dimensions must have names, but found: {}'
        msg = msg.format(err_dims)
        raise ValueError(msg)

def use_named_args(dimensions):

    def decorator(func):
        check_list_types(dimensions, Dimension)
        check_dimension_names(dimensions)

        @wraps(func)
        def wrapper(x):
            if len(x) != len(dimensions):
                msg = 'Mismatch in number of search-space dimensions. len(dimensions)=={} and len(x)=={}'
                msg = msg.format(len(dimensions), len(x))
                raise ValueError(msg)
            arg_dict = {dim.name: value for dim, value in zip(dimensions, x)}
            objective_value = func(**arg_dict)
            return objective_value
        return wrapper
    return decorator
