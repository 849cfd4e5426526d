from __future__ import division
import numpy as np
from sklearn.preprocessing import LabelBinarizer
from sklearn.utils import column_or_1d

class Transformer(object):

    def fit(self, X):
        return self

    def transform(self, X):
        raise NotImplementedError

    def inverse_transform(self, X):
        raise NotImplementedError

class Identity(Transformer):

    def transform(self, X):
        return X

    def inverse_transform(self, Xt):
        return Xt

class StringEncoder(Transformer):

    def __init__(self, dtype=str):
        super(StringEncoder, self).__init__()
        self.dtype = dtype
        self.inverse_mapping_ = {}

    def fit(self, X):
        if len(X) > 0:
            self.dtype = type(X[0])
        self.inverse_mapping_ = {str(x): x for x in X}

    def transform(self, X):
        return [str(x) for x in X]

    def inverse_transform(self, Xt):
        return [self.inverse_mapping_[x] if x in self.inverse_mapping_ else self.dtype(x) for x in Xt]

class LogN(Transformer):

    def __init__(self, base):
        self._base = base

    def transform(self, X):
        return np.log10(np.asarray(X, dtype=float)) / np.log10(self._base)

    def inverse_transform(self, Xt):
        return self._base ** np.asarray(Xt, dtype=float)

class CategoricalEncoder(Transformer):

    def __init__(self):
        self._lb = LabelBinarizer()

    def fit(self, X):
        self.mapping_ = {v: i for i, v in enumerate(X)}
        self.inverse_mapping_ = {i: v for v, i in self.mapping_.items()}
        self._lb.fit([self.mapping_[v] for v in X])
        self.n_classes = len(self._lb.classes_)
        return self

    def transform(self, X):
        return self._lb.transform([self.mapping_[v] for v in X])

    def inverse_transform(self, Xt):
        Xt = np.asarray(Xt)
        return [self.inverse_mapping_[i] for i in self._lb.inverse_transform(Xt)]

class LabelEncoder(Transformer):

    def __init__(self, X=None):
        if X is not None:
            self.fit(X)

    def fit(self, X):
        one_type = len(set(map(type, X))) <= 1
        X = np.asarray(X, dtype=None if one_type else object)
        if X.dtype == object:
            self.mapping_ = {v: i for i, v in enumerate(X)}
        else:
            i = 0
            self.mapping_ = {}
            for v in np.unique(X):
                self.mapping_[v] = i
                i += 1
        self.inverse_mapping_ = {i: v for v, i in self.mapping_.items()}
        return self

    def transform(self, X):
        return [self.mapping_[v] for v in X]

    def inverse_transform(self, Xt):
        if isinstance(Xt, (float, np.float64)):
            Xt = [Xt]
        else:
            Xt = np.asarray(Xt)
        return [self.inverse_mapping_[int(np.round(i))] for i in Xt]

class Normalize(Transformer):

    def __init__(self, low, high, is_int=False):
        self.low = float(low)
        self.high = float(high)
        self.is_int = is_int
        self._eps = 1e-08

    def transform(self, X):
        X = np.asarray(X)
        if self.is_int:
            if np.any(np.round(X) > self.high):
                raise ValueError('All integer values shouldbe less than %f' % self.high)
            if np.any(np.round(X) < self.low):
                raise ValueError('All integer values shouldbe greater than %f' % self.low)
        else:
            if np.any(X > self.high + self._eps):
                raise ValueError('All values shouldbe less than %f' % self.high)
            if np.any(X < self.low - self._eps):
                raise ValueError('All values shouldbe greater than %f' % self.low)
        if self.high - self.low == 0.0:
            return X * 0.0
        if self.is_int:
            return (np.round(X).astype(int) - self.low) / (self.high - self.low)
        else:
            return (X - self.low) / (self.high - self.low)

    def inverse_transform(self, X):
        X = np.asarray(X)
        if np.any(X > 1.0 + self._eps):
            raise ValueError('All values should be less than 1.0')
        if np.any(X < 0.0 - self._eps):
            raise ValueError('All values should be greater than 0.0')
        X_orig = X * (self.high - self.low) + self.low
        if self.is_int:
            return np.round(X_orig).astype(int)
        return X_orig

class Pipeline(Transformer):

    def __init__(self, transformers):
        self.transformers = list(transformers)
        for transformer in self.transformers:
            if not isinstance(transformer, Transformer):
                raise ValueError('Provided transformers should be a Transformer instance. Got %s' % transformer)

    def fit(self, X):
        for transformer in self.transformers:
            transformer.fit(X)
        return self

    def transform(self, X):
        for transformer in self.transformers:
            X = transformer.transform(X)
        return X

    def inverse_transform(self, X):
        for transformer in self.transformers[::-1]:
            X = transformer.inverse_transform(X)
        return X
