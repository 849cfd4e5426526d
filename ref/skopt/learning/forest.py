import numpy as np
from sklearn.ensemble import RandomForestRegressor as _sk_RandomForestRegressor
from sklearn.ensemble import ExtraTreesRegressor as _sk_ExtraTreesRegressor

def _return_std(X, trees, predictions, min_variance):
    std = np.zeros(len(X))
    for tree in trees:
        var_tree = tree.tree_.impurity[tree.apply(X)]
        var_tree[var_tree < min_variance] = min_variance
        mean_tree = tree.predict(X)
        std += var_tree + mean_tree ** 2
    std /= len(trees)
    std -= predictions ** 2.0
    std[std < 0.0] = 0.0
    std = std ** 0.5
    return std

class RandomForestRegressor(_sk_RandomForestRegressor):

    def __init__(self, n_estimators=10, criterion='squared_error', max_depth=None, min_samples_split=2, min_samples_leaf=1, min_weight_fraction_leaf=0.0, max_features=1.0, max_leaf_nodes=None, min_impurity_decrease=0.0, bootstrap=True, oob_score=False, n_jobs=1, random_state=None, verbose=0, warm_start=False, min_variance=0.0):
        self.min_variance = min_variance
        super(RandomForestRegressor, self).__init__(n_estimators=n_estimators, criterion=criterion, max_depth=max_depth, min_samples_split=min_samples_split, min_samples_leaf=min_samples_leaf, min_weight_fraction_leaf=min_weight_fraction_leaf, max_features=max_features, max_leaf_nodes=max_leaf_nodes, min_impurity_decrease=min_impurity_decrease, bootstrap=bootstrap, oob_score=oob_score, n_jobs=n_jobs, random_state=random_state, verbose=verbose, warm_start=warm_start)

    def predict(self, X, return_std=False):
        mean = super(RandomForestRegressor, self).predict(X)
        if return_std:
            if self.criterion not in ('squared_error', 'mse'):
                raise ValueError("Expected impurity to be 'squared_error', got %s instead" % self.criterion)
            std = _return_std(X, self.estimators_, mean, self.min_variance)
            return (mean, std)
        return mean

class ExtraTreesRegressor(_sk_ExtraTreesRegressor):

    def __init__(self, n_estimators=10, criterion='squared_error', max_depth=None, min_samples_split=2, min_samples_leaf=1, min_weight_fraction_leaf=0.0, max_features=1.0, max_leaf_nodes=None, min_impurity_decrease=0.0, bootstrap=False, oob_score=False, n_jobs=1, random_state=None, verbose=0, warm_start=False, min_variance=0.0):
        self.min_variance = min_variance
        super(ExtraTreesRegressor, self).__init__(n_estimators=n_estimators, criterion=criterion, max_depth=max_depth, min_samples_split=min_samples_split, min_samples_leaf=min_samples_leaf, min_weight_fraction_leaf=min_weight_fraction_leaf, max_features=max_features, max_leaf_nodes=max_leaf_nodes, min_impurity_decrease=min_impurity_decrease, bootstrap=bootstrap, oob_score=oob_score, n_jobs=n_jobs, random_state=random_state, verbose=verbose, warm_start=warm_start)

    def predict(self, X, return_std=False):
        mean = super(ExtraTreesRegressor, self).predict(X)
        if return_std:
            if self.criterion not in ('squared_error', 'mse'):
                raise ValueError("Expected impurity to be 'squared_error', got %s instead" % self.criterion)
            std = _return_std(X, self.estimators_, mean, self.min_variance)
            return (mean, std)
        return mean
