import sys
import warnings
from math import log
from numbers import Number
import numpy as np
from scipy.optimize import fmin_l_bfgs_b
from sklearn.base import clone
from sklearn.base import is_regressor
from joblib import Parallel, delayed
from sklearn.multioutput import MultiOutputRegressor
from sklearn.utils import check_random_state
from ..acquisition import _gaussian_acquisition
from ..acquisition import gaussian_acquisition_1D
from ..learning import GaussianProcessRegressor
from ..space import Categorical
from ..space import Space
from ..utils import check_x_in_space
from ..utils import cook_estimator
from ..utils import create_result
from ..utils import has_gradients
from ..utils import is_listlike
from ..utils import is_2Dlistlike
from ..utils import normalize_dimensions
from ..utils import cook_initial_point_generator

class Optimizer(object):

    def __init__(self, dimensions, base_estimator='gp', n_random_starts=None, n_initial_points=10, initial_point_generator='random', n_jobs=1, acq_func='gp_hedge', acq_optimizer='auto', random_state=None, model_queue_size=None, acq_func_kwargs=None, acq_optimizer_kwargs=None):
        args = locals().copy()
        del args['self']
        self.specs = {'args': args, 'function': 'Optimizer'}
        self.rng = check_random_state(random_state)
        self.acq_func = acq_func
        self.acq_func_kwargs = acq_func_kwargs
        allowed_acq_funcs = ['gp_hedge', 'EI', 'LCB', 'PI', 'EIps', 'PIps']
        if self.acq_func not in allowed_acq_funcs:
            raise ValueError('expected acq_func to be in %s, got %s' % (','.join(allowed_acq_funcs), self.acq_func))
        if self.acq_func == 'gp_hedge':
            self.cand_acq_funcs_ = ['EI', 'LCB', 'PI']
            self.gains_ = np.zeros(3)
        else:
            self.cand_acq_funcs_ = [self.acq_func]
        if acq_func_kwargs is None:
            acq_func_kwargs = dict()
        self.eta = acq_func_kwargs.get('eta', 1.0)
        if n_random_starts is not None:
            warnings.warn('n_random_starts will be removed in favour of n_initial_points.', DeprecationWarning)
            n_initial_points = n_random_starts
        if n_initial_points < 0:
            raise ValueError('Expected `n_initial_points` >= 0, got %d' % n_initial_points)
        self._n_initial_points = n_initial_points
        self.n_initial_points_ = n_initial_points
        if isinstance(base_estimator, str):
            base_estimator = cook_estimator(base_estimator, space=dimensions, random_state=self.rng.randint(0, np.iinfo(np.int32).max), n_jobs=n_jobs)
        if not is_regressor(base_estimator) and base_estimator is not None:
            raise ValueError('%s has to be a regressor.' % base_estimator)
        is_multi_regressor = isinstance(base_estimator, MultiOutputRegressor)
        if 'ps' in self.acq_func and (not is_multi_regressor):
            self.base_estimator_ = MultiOutputRegressor(base_estimator)
        else:
            self.base_estimator_ = base_estimator
        if acq_optimizer == 'auto':
            if has_gradients(self.base_estimator_):
                acq_optimizer = 'lbfgs'
            else:
                acq_optimizer = 'sampling'
        if acq_optimizer not in ['lbfgs', 'sampling']:
            raise ValueError("Expected acq_optimizer to be 'lbfgs' or 'sampling', got {0}".format(acq_optimizer))
        if not has_gradients(self.base_estimator_) and acq_optimizer != 'sampling':
            raise ValueError("The regressor {0} should run with acq_optimizer='sampling'.".format(type(base_estimator)))
        self.acq_optimizer = acq_optimizer
        if acq_optimizer_kwargs is None:
            acq_optimizer_kwargs = dict()
        self.n_points = acq_optimizer_kwargs.get('n_points', 10000)
        self.n_restarts_optimizer = acq_optimizer_kwargs.get('n_restarts_optimizer', 5)
        self.n_jobs = acq_optimizer_kwargs.get('n_jobs', 1)
        self.acq_optimizer_kwargs = acq_optimizer_kwargs
        if isinstance(self.base_estimator_, GaussianProcessRegressor):
            dimensions = normalize_dimensions(dimensions)
        self.space = Space(dimensions)
        self._initial_samples = None
        self._initial_point_generator = cook_initial_point_generator(initial_point_generator)
        if self._initial_point_generator is not None:
            transformer = self.space.get_transformer()
            self._initial_samples = self._initial_point_generator.generate(self.space.dimensions, n_initial_points, random_state=self.rng.randint(0, np.iinfo(np.int32).max))
            self.space.set_transformer(transformer)
        self._cat_inds = []
        self._non_cat_inds = []
        for ind, dim in enumerate(self.space.dimensions):
            if isinstance(dim, Categorical):
                self._cat_inds.append(ind)
            else:
                self._non_cat_inds.append(ind)
        if not isinstance(model_queue_size, (int, type(None))):
            raise TypeError('model_queue_size should be an int or None, got {}'.format(type(model_queue_size)))
        if model_queue_size is not None and model_queue_size < 1:
            raise ValueError('model_queue_size should be positive, got {}'.format(model_queue_size))
        self.max_model_queue_size = model_queue_size
        self.models = []
        self.Xi = []
        self.yi = []
        self.cache_ = {}

    def copy(self, random_state=None):
        optimizer = Optimizer(dimensions=self.space.dimensions, base_estimator=self.base_estimator_, n_initial_points=self.n_initial_points_, initial_point_generator=self._initial_point_generator, acq_func=self.acq_func, acq_optimizer=self.acq_optimizer, acq_func_kwargs=self.acq_func_kwargs, acq_optimizer_kwargs=self.acq_optimizer_kwargs, model_queue_size=self.max_model_queue_size, random_state=random_state)
        optimizer._initial_samples = self._initial_samples
        if hasattr(self, 'gains_'):
            optimizer.gains_ = np.copy(self.gains_)
        if self.Xi:
            optimizer._tell(self.Xi, self.yi)
        return optimizer

    def ask(self, n_points=None, strategy='cl_min'):
        if n_points is None:
            return self._ask()
        supported_strategies = ['cl_min', 'cl_mean', 'cl_max']
        if not (isinstance(n_points, int) and n_points > 0):
            raise ValueError('n_points should be int > 0, got ' + str(n_points))
        if strategy not in supported_strategies:
            raise ValueError('Expected parallel_strategy to be one of ' + str(supported_strategies) + ', ' + 'got %s' % strategy)
        if (n_points, strategy) in self.cache_:
            return self.cache_[n_points, strategy]
        opt = self.copy(random_state=self.rng.randint(0, np.iinfo(np.int32).max))
        X = []
        for i in range(n_points):
            x = opt.ask()
            X.append(x)
            ti_available = 'ps' in self.acq_func and len(opt.yi) > 0
            ti = [t for _, t in opt.yi] if ti_available else None
            yi = [y for y, _ in opt.yi] if ti_available else opt.yi
            if strategy == 'cl_min':
                y_lie = np.min(yi) if yi else 0.0
                t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
            elif strategy == 'cl_mean':
                y_lie = np.mean(yi) if yi else 0.0
                t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
            else:
                y_lie = np.max(yi) if yi else 0.0
                t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
            if 'ps' in self.acq_func:
                opt._tell(x, (y_lie, t_lie))
            else:
                opt._tell(x, y_lie)
        self.cache_ = {(n_points, strategy): X}
        return X

    def _ask(self):
        if self._n_initial_points > 0 or self.base_estimator_ is None:
            if self._initial_samples is None:
                return self.space.rvs(random_state=self.rng)[0]
            else:
                return self._initial_samples[len(self._initial_samples) - self._n_initial_points]
        else:
            if not self.models:
                raise RuntimeError('Random evaluations exhausted and no model has been fit.')
            next_x = self._next_x
            min_delta_x = min([self.space.distance(next_x, xi) for xi in self.Xi])
            if abs(min_delta_x) <= 1e-08:
                warnings.warn('The objective has been evaluated at this point before.')
            return next_x

    def tell(self, x, y, fit=True):
        check_x_in_space(x, self.space)
        self._check_y_is_valid(x, y)
        if 'ps' in self.acq_func:
            if is_2Dlistlike(x):
                y = [[val, log(t)] for val, t in y]
            elif is_listlike(x):
                y = list(y)
                y[1] = log(y[1])
        return self._tell(x, y, fit=fit)

    def _tell(self, x, y, fit=True):
        if 'ps' in self.acq_func:
            if is_2Dlistlike(x):
                self.Xi.extend(x)
                self.yi.extend(y)
                self._n_initial_points -= len(y)
            elif is_listlike(x):
                self.Xi.append(x)
                self.yi.append(y)
                self._n_initial_points -= 1
        elif is_listlike(y) and is_2Dlistlike(x):
            self.Xi.extend(x)
            self.yi.extend(y)
            self._n_initial_points -= len(y)
        elif is_listlike(x):
            self.Xi.append(x)
            self.yi.append(y)
            self._n_initial_points -= 1
        else:
            raise ValueError('Type of arguments `x` (%s) and `y` (%s) not compatible.' % (type(x), type(y)))
        self.cache_ = {}
        if fit and self._n_initial_points <= 0 and (self.base_estimator_ is not None):
            transformed_bounds = np.array(self.space.transformed_bounds)
            est = clone(self.base_estimator_)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                est.fit(self.space.transform(self.Xi), self.yi)
            if hasattr(self, 'next_xs_') and self.acq_func == 'gp_hedge':
                self.gains_ -= est.predict(np.vstack(self.next_xs_))
            if self.max_model_queue_size is None:
                self.models.append(est)
            elif len(self.models) < self.max_model_queue_size:
                self.models.append(est)
            else:
                self.models.pop(0)
                self.models.append(est)
            X = self.space.transform(self.space.rvs(n_samples=self.n_points, random_state=self.rng))
            y_opt = np.min([y for y, _ in self.yi] if 'ps' in self.acq_func else self.yi)
            self.next_xs_ = []
            for cand_acq_func in self.cand_acq_funcs_:
                values = _gaussian_acquisition(X=X, model=est, y_opt=y_opt, acq_func=cand_acq_func, acq_func_kwargs=self.acq_func_kwargs)
                if self.acq_optimizer == 'sampling':
                    next_x = X[np.argmin(values)]
                elif self.acq_optimizer == 'lbfgs':
                    x0 = X[np.argsort(values)[:self.n_restarts_optimizer]]
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        results = Parallel(n_jobs=self.n_jobs)((delayed(fmin_l_bfgs_b)(gaussian_acquisition_1D, x, args=(est, y_opt, cand_acq_func, self.acq_func_kwargs), bounds=self.space.transformed_bounds, approx_grad=False, maxiter=20) for x in x0))
                    cand_xs = np.array([r[0] for r in results])
                    cand_acqs = np.array([r[1] for r in results])
                    next_x = cand_xs[np.argmin(cand_acqs)]
                if not self.space.is_categorical:
                    next_x = np.clip(next_x, transformed_bounds[:, 0], transformed_bounds[:, 1])
                self.next_xs_.append(next_x)
            if self.acq_func == 'gp_hedge':
                logits = np.array(self.gains_)
                logits -= np.max(logits)
                exp_logits = np.exp(self.eta * logits)
                probs = exp_logits / np.sum(exp_logits)
                next_x = self.next_xs_[np.argmax(self.rng.multinomial(1, probs))]
            else:
                next_x = self.next_xs_[0]
            self._next_x = self.space.inverse_transform(next_x.reshape((1, -1)))[0]
        result = create_result(self.Xi, self.yi, self.space, self.rng, models=self.models)
        result.specs = self.specs
        return result

    def _check_y_is_valid(self, x, y):
        if 'ps' in self.acq_func:
            if is_2Dlistlike(x):
                if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                    raise TypeError('expected y to be a list of (func_val, t)')
                if len(x) != len(y):
                    raise ValueError('`x` and `y` should have the same length')
            elif is_listlike(x):
                if not (np.ndim(y) == 1 and len(y) == 2):
                    raise TypeError('expected y to be (func_val, t)')
        elif is_listlike(y) and is_2Dlistlike(x):
            for y_value in y:
                if not isinstance(y_value, Number):
                    raise ValueError('expected y to be a list of scalars')
            if len(x) != len(y):
                raise ValueError('`x` and `y` should have the same length')
        elif is_listlike(x):
            if not isinstance(y, Number):
                raise ValueError('`func` should return a scalar')
        else:
            raise ValueError('Type of arguments `x` (%s) and `y` (%s) not compatible.' % (type(x), type(y)))

    def run(self, func, n_iter=1):
        for _ in range(n_iter):
            x = self.ask()
            self.tell(x, func(x))
        result = create_result(self.Xi, self.yi, self.space, self.rng, models=self.models)
        result.specs = self.specs
        return result

    def update_next(self):
        self.cache_ = {}
        if hasattr(self, '_next_x'):
            opt = self.copy(random_state=self.rng)
            self._next_x = opt._next_x

    def get_result(self):
        result = create_result(self.Xi, self.yi, self.space, self.rng, models=self.models)
        result.specs = self.specs
        return result
