from sklearn.utils import check_random_state
from .base import base_minimize
from ..utils import cook_estimator

def forest_minimize(func, dimensions, base_estimator='ET', n_calls=100, n_random_starts=None, n_initial_points=10, acq_func='EI', initial_point_generator='random', x0=None, y0=None, random_state=None, verbose=False, callback=None, n_points=10000, xi=0.01, kappa=1.96, n_jobs=1, model_queue_size=None):
    return base_minimize(func, dimensions, base_estimator, n_calls=n_calls, n_points=n_points, n_random_starts=n_random_starts, n_initial_points=n_initial_points, initial_point_generator=initial_point_generator, x0=x0, y0=y0, random_state=random_state, n_jobs=n_jobs, acq_func=acq_func, xi=xi, kappa=kappa, verbose=verbose, callback=callback, acq_optimizer='sampling', model_queue_size=model_queue_size)
