import numpy as np
from sklearn.base import clone
from sklearn.base import BaseEstimator, RegressorMixin
from sklearn.ensemble import GradientBoostingRegressor
from sklearn.utils import check_random_state
from joblib import Parallel, delayed

def _parallel_fit(regressor, X, y):
    return regressor.fit(X, y)

class GradientBoostingQuantileRegressor(BaseEstimator, RegressorMixin):

    def __init__(self, quantiles=[0.16, 0.5, 0.84], base_estimator=None, n_jobs=1, random_state=None):
        self.quantiles = quantiles
        self.random_state = random_state
        self.base_estimator = base_estimator
        self.n_jobs = n_jobs

    def fit(self, X, y):
        rng = check_random_state(self.random_state)
        if self.base_estimator is None:
            base_estimator = GradientBoostingRegressor(loss='quantile')
        else:
            base_estimator = self.base_estimator
            if not isinstance(base_estimator, GradientBoostingRegressor):
                raise ValueError('base_estimator has to be of type GradientBoostingRegressor.')
            if not base_estimator.loss == 'quantile':
                raise ValueError('base_estimator has to use quantile loss not %s' % base_estimator.loss)
        base_estimator = clone(base_estimator)
        base_estimator.set_params(random_state=rng)
        regressors = []
        for q in self.quantiles:
            regressor = clone(base_estimator)
            regressor.set_params(alpha=q)
            regressors.append(regressor)
        self.regressors_ = Parallel(n_jobs=self.n_jobs, backend='threading')((delayed(_parallel_fit)(regressor, X, y) for regressor in regressors))
        return self

    def predict(self, X, return_std=False, return_quantiles=False):
        predicted_quantiles = np.asarray([rgr.predict(X) for rgr in self.regressors_])
        if return_quantiles:
            return predicted_quantiles.T
        elif return_std:
            std_quantiles = [0.16, 0.5, 0.84]
            is_present_mask = np.in1d(std_quantiles, self.quantiles)
            if not np.all(is_present_mask):
                raise ValueError('return_std works only if the quantiles during instantiation include 0.16, 0.5 and 0.84')
            low = self.regressors_[self.quantiles.index(0.16)].predict(X)
            high = self.regressors_[self.quantiles.index(0.84)].predict(X)
            mean = self.regressors_[self.quantiles.index(0.5)].predict(X)
            return (mean, (high - low) / 2.0)
        return self.regressors_[self.quantiles.index(0.5)].predict(X)
