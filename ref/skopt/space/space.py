import numbers
import numpy as np
import yaml
from scipy.stats.distributions import randint
from scipy.stats.distributions import rv_discrete
from scipy.stats.distributions import uniform
from sklearn.utils import check_random_state
from sklearn.utils.fixes import sp_version
from .transformers import CategoricalEncoder
from .transformers import StringEncoder
from .transformers import LabelEncoder
from .transformers import Normalize
from .transformers import Identity
from .transformers import LogN
from .transformers import Pipeline

class _Ellipsis:

    def __repr__(self):
        return '...'

def _transpose_list_array(x):
    n_dims = len(x)
    assert n_dims > 0
    n_samples = len(x[0])
    rows = [None] * n_samples
    for i in range(n_samples):
        r = [None] * n_dims
        for j in range(n_dims):
            r[j] = x[j][i]
        rows[i] = r
    return rows

def check_dimension(dimension, transform=None):
    if isinstance(dimension, Dimension):
        return dimension
    if not isinstance(dimension, (list, tuple, np.ndarray)):
        raise ValueError('Dimension has to be a list or tuple.')
    if len(dimension) == 1:
        return Categorical(dimension, transform=transform)
    if len(dimension) == 2:
        if any([isinstance(d, (str, bool)) or isinstance(d, np.bool_) for d in dimension]):
            return Categorical(dimension, transform=transform)
        elif all([isinstance(dim, numbers.Integral) for dim in dimension]):
            return Integer(*dimension, transform=transform)
        elif any([isinstance(dim, numbers.Real) for dim in dimension]):
            return Real(*dimension, transform=transform)
        else:
            raise ValueError('Invalid dimension {}. Read the documentation for supported types.'.format(dimension))
    if len(dimension) == 3:
        if all([isinstance(dim, numbers.Integral) for dim in dimension[:2]]) and dimension[2] in ['uniform', 'log-uniform']:
            return Integer(*dimension, transform=transform)
        elif any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and dimension[2] in ['uniform', 'log-uniform']:
            return Real(*dimension, transform=transform)
        else:
            return Categorical(dimension, transform=transform)
    if len(dimension) == 4:
        if all([isinstance(dim, numbers.Integral) for dim in dimension[:2]]) and dimension[2] == 'log-uniform' and isinstance(dimension[3], int):
            return Integer(*dimension, transform=transform)
        elif any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and dimension[2] == 'log-uniform' and isinstance(dimension[3], int):
            return Real(*dimension, transform=transform)
    if len(dimension) > 3:
        return Categorical(dimension, transform=transform)
    raise ValueError('Invalid dimension {}. Read the documentation for supported types.'.format(dimension))

class Dimension(object):
    prior = None

    def rvs(self, n_samples=1, random_state=None):
        rng = check_random_state(random_state)
        samples = self._rvs.rvs(size=n_samples, random_state=rng)
        return self.inverse_transform(samples)

    def transform(self, X):
        return self.transformer.transform(X)

    def inverse_transform(self, Xt):
        return self.transformer.inverse_transform(Xt)

    def set_transformer(self):
        raise NotImplementedError

    @property
    def size(self):
        return 1

    @property
    def transformed_size(self):
        return 1

    @property
    def bounds(self):
        raise NotImplementedError

    @property
    def is_constant(self):
        raise NotImplementedError

    @property
    def transformed_bounds(self):
        raise NotImplementedError

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, value):
        if isinstance(value, str) or value is None:
            self._name = value
        else:
            raise ValueError("Dimension's name must be either string or None.")

def _uniform_inclusive(loc=0.0, scale=1.0):
    return uniform(loc=loc, scale=np.nextafter(scale, scale + 1.0))

class Real(Dimension):

    def __init__(self, low, high, prior='uniform', base=10, transform=None, name=None, dtype=float):
        if high <= low:
            raise ValueError('the lower bound {} has to be less than the upper bound {}'.format(low, high))
        if prior not in ['uniform', 'log-uniform']:
            raise ValueError("prior should be 'uniform' or 'log-uniform' got {}".format(prior))
        self.low = low
        self.high = high
        self.prior = prior
        self.base = base
        self.log_base = np.log10(base)
        self.name = name
        self.dtype = dtype
        self._rvs = None
        self.transformer = None
        self.transform_ = transform
        if isinstance(self.dtype, str) and self.dtype not in ['float', 'float16', 'float32', 'float64']:
            raise ValueError("dtype must be 'float', 'float16', 'float32'or 'float64' got {}".format(self.dtype))
        elif isinstance(self.dtype, type) and (not np.issubdtype(self.dtype, np.floating)):
            raise ValueError('dtype must be a np.floating subtype; got {}'.format(self.dtype))
        if transform is None:
            transform = 'identity'
        self.set_transformer(transform)

    def set_transformer(self, transform='identity'):
        self.transform_ = transform
        if self.transform_ not in ['normalize', 'identity']:
            raise ValueError("transform should be 'normalize' or 'identity' got {}".format(self.transform_))
        if self.transform_ == 'normalize':
            self._rvs = _uniform_inclusive(0.0, 1.0)
            if self.prior == 'uniform':
                self.transformer = Pipeline([Identity(), Normalize(self.low, self.high)])
            else:
                self.transformer = Pipeline([LogN(self.base), Normalize(np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base)])
        elif self.prior == 'uniform':
            self._rvs = _uniform_inclusive(self.low, self.high - self.low)
            self.transformer = Identity()
        else:
            self._rvs = _uniform_inclusive(np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base - np.log10(self.low) / self.log_base)
            self.transformer = LogN(self.base)

    def __eq__(self, other):
        return type(self) is type(other) and np.allclose([self.low], [other.low]) and np.allclose([self.high], [other.high]) and (self.prior == other.prior) and (self.transform_ == other.transform_)

    def __repr__(self):
        return "Real(low={}, high={}, prior='{}', transform='{}')".format(self.low, self.high, self.prior, self.transform_)

    def inverse_transform(self, Xt):
        inv_transform = super(Real, self).inverse_transform(Xt)
        if isinstance(inv_transform, list):
            inv_transform = np.array(inv_transform)
        inv_transform = np.clip(inv_transform, self.low, self.high).astype(self.dtype)
        if self.dtype == float or self.dtype == 'float':
            return getattr(inv_transform, 'tolist', lambda: inv_transform)()
        else:
            low, high = np.array([self.low, self.high]).astype(self.dtype)
            if float(low) < self.low:
                low = np.nextafter(low, high)
            if float(high) > self.high:
                high = np.nextafter(high, low)
            return np.clip(inv_transform, low, high)

    @property
    def bounds(self):
        return (self.low, self.high)

    @property
    def is_constant(self):
        return self.low == self.high

    def __contains__(self, point):
        if isinstance(point, list):
            point = np.array(point)
        return self.low <= point <= self.high

    @property
    def transformed_bounds(self):
        if self.transform_ == 'normalize':
            return (0.0, 1.0)
        elif self.prior == 'uniform':
            return (self.low, self.high)
        else:
            return (np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base)

    def distance(self, a, b):
        if not (a in self and b in self):
            raise RuntimeError('Can only compute distance for values within the space, not %s and %s.' % (a, b))
        return abs(a - b)

class Integer(Dimension):

    def __init__(self, low, high, prior='uniform', base=10, transform=None, name=None, dtype=np.int64):
        if high <= low:
            raise ValueError('the lower bound {} has to be less than the upper bound {}'.format(low, high))
        if prior not in ['uniform', 'log-uniform']:
            raise ValueError("prior should be 'uniform' or 'log-uniform' got {}".format(prior))
        self.low = low
        self.high = high
        self.prior = prior
        self.base = base
        self.log_base = np.log10(base)
        self.name = name
        self.dtype = dtype
        self.transform_ = transform
        self._rvs = None
        self.transformer = None
        if isinstance(self.dtype, str) and self.dtype not in ['int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']:
            raise ValueError("dtype must be 'int', 'int8', 'int16','int32', 'int64', 'uint8','uint16', 'uint32', or'uint64', but got {}".format(self.dtype))
        elif isinstance(self.dtype, type) and self.dtype not in [int, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]:
            raise ValueError("dtype must be 'int', 'np.int8', 'np.int16','np.int32', 'np.int64', 'np.uint8','np.uint16', 'np.uint32', or'np.uint64', but got {}".format(self.dtype))
        if transform is None:
            transform = 'identity'
        self.set_transformer(transform)

    def set_transformer(self, transform='identity'):
        self.transform_ = transform
        if transform not in ['normalize', 'identity']:
            raise ValueError("transform should be 'normalize' or 'identity' got {}".format(self.transform_))
        if self.transform_ == 'normalize':
            self._rvs = _uniform_inclusive(0.0, 1.0)
            if self.prior == 'uniform':
                self.transformer = Pipeline([Identity(), Normalize(self.low, self.high, is_int=True)])
            else:
                self.transformer = Pipeline([LogN(self.base), Normalize(np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base)])
        elif self.prior == 'uniform':
            self._rvs = randint(self.low, self.high + 1)
            self.transformer = Identity()
        else:
            self._rvs = _uniform_inclusive(np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base - np.log10(self.low) / self.log_base)
            self.transformer = LogN(self.base)

    def __eq__(self, other):
        return type(self) is type(other) and np.allclose([self.low], [other.low]) and np.allclose([self.high], [other.high]) and (self.prior == other.prior) and (self.transform_ == other.transform_)

    def __repr__(self):
        return "Integer(low={}, high={}, prior='{}', transform='{}')".format(self.low, self.high, self.prior, self.transform_)

    def inverse_transform(self, Xt):
        inv_transform = super(Integer, self).inverse_transform(Xt)
        if isinstance(inv_transform, list):
            inv_transform = np.array(inv_transform)
        inv_transform = np.clip(inv_transform, self.low, self.high)
        if self.dtype == int or self.dtype == 'int':
            return getattr(np.round(inv_transform).astype(self.dtype), 'tolist', lambda: inv_transform)()
        else:
            return np.round(inv_transform).astype(self.dtype)

    @property
    def bounds(self):
        return (self.low, self.high)

    @property
    def is_constant(self):
        return self.low == self.high

    def __contains__(self, point):
        if isinstance(point, list):
            point = np.array(point)
        return self.low <= point <= self.high

    @property
    def transformed_bounds(self):
        if self.transform_ == 'normalize':
            return (0.0, 1.0)
        elif self.prior == 'log-uniform':
            return (np.log10(self.low) / self.log_base, np.log10(self.high) / self.log_base)
        else:
            return (self.low, self.high)

    def distance(self, a, b):
        if not (a in self and b in self):
            raise RuntimeError('Can only compute distance for values within the space, not %s and %s.' % (a, b))
        return abs(a - b)

class Categorical(Dimension):

    def __init__(self, categories, prior=None, transform=None, name=None):
        self.categories = tuple(categories)
        self.name = name
        if transform is None:
            transform = 'onehot'
        self.transform_ = transform
        self.transformer = None
        self._rvs = None
        self.prior = prior
        if prior is None:
            self.prior_ = np.tile(1.0 / len(self.categories), len(self.categories))
        else:
            self.prior_ = prior
        self.set_transformer(transform)

    def set_transformer(self, transform='onehot'):
        self.transform_ = transform
        if transform not in ['identity', 'onehot', 'string', 'normalize', 'label']:
            raise ValueError("Expected transform to be 'identity', 'string','label' or 'onehot' got {}".format(transform))
        if transform == 'onehot':
            self.transformer = CategoricalEncoder()
            self.transformer.fit(self.categories)
        elif transform == 'string':
            self.transformer = StringEncoder()
            self.transformer.fit(self.categories)
        elif transform == 'label':
            self.transformer = LabelEncoder()
            self.transformer.fit(self.categories)
        elif transform == 'normalize':
            self.transformer = Pipeline([LabelEncoder(list(self.categories)), Normalize(0, len(self.categories) - 1, is_int=True)])
        else:
            self.transformer = Identity()
            self.transformer.fit(self.categories)
        self._rvs = rv_discrete(values=(range(len(self.categories)), self.prior_))

    def __eq__(self, other):
        return type(self) is type(other) and self.categories == other.categories and np.allclose(self.prior_, other.prior_)

    def __repr__(self):
        if len(self.categories) > 7:
            cats = self.categories[:3] + (_Ellipsis(),) + self.categories[-3:]
        else:
            cats = self.categories
        if self.prior is not None and len(self.prior) > 7:
            prior = self.prior[:3] + [_Ellipsis()] + self.prior[-3:]
        else:
            prior = self.prior
        return 'Categorical(categories={}, prior={})'.format(cats, prior)

    def inverse_transform(self, Xt):
        inv_transform = super(Categorical, self).inverse_transform(Xt)
        if isinstance(inv_transform, list):
            one_type = len(set(map(type, self.categories))) <= 1
            inv_transform = np.array(inv_transform, dtype=None if one_type else object)
        return inv_transform

    def rvs(self, n_samples=None, random_state=None):
        choices = self._rvs.rvs(size=n_samples, random_state=random_state)
        if isinstance(choices, numbers.Integral):
            if self.transform_ == 'normalize':
                return [self.categories[choices]]
            return self.categories[choices]
        else:
            return [self.categories[c] for c in choices]

    @property
    def transformed_size(self):
        if self.transform_ == 'onehot':
            size = len(self.categories)
            return size if size != 2 else 1
        return 1

    @property
    def bounds(self):
        return self.categories

    @property
    def is_constant(self):
        return len(self.categories) <= 1

    def __contains__(self, point):
        return point in self.categories

    @property
    def transformed_bounds(self):
        if self.transform_ == 'label':
            return (0.0, float(len(self.categories) - 1))
        if self.transformed_size == 1:
            return (0.0, 1.0)
        else:
            return [(0.0, 1.0) for i in range(self.transformed_size)]

    def distance(self, a, b):
        if not (a in self and b in self):
            raise RuntimeError('Can only compute distance for values within the space, not {} and {}.'.format(a, b))
        return 1 if a != b else 0

class Space(object):

    def __init__(self, dimensions):
        self.dimensions = [check_dimension(dim) for dim in dimensions]

    def __eq__(self, other):
        return len(self.dimensions) == len(other.dimensions) and all([a == b for a, b in zip(self.dimensions, other.dimensions)])

    def __repr__(self):
        if len(self.dimensions) > 31:
            dims = self.dimensions[:15] + [_Ellipsis()] + self.dimensions[-15:]
        else:
            dims = self.dimensions
        return 'Space([{}])'.format(',\n       '.join(map(str, dims)))

    def __iter__(self):
        return iter(self.dimensions)

    @property
    def dimension_names(self):
        index = 0
        names = []
        for dim in self.dimensions:
            if dim.name is None:
                names.append('X_%d' % index)
            else:
                names.append(dim.name)
            index += 1
        return names

    @property
    def is_real(self):
        return all([isinstance(dim, Real) for dim in self.dimensions])

    @classmethod
    def from_yaml(cls, yml_path, namespace=None):
        with open(yml_path, 'rb') as f:
            config = yaml.safe_load(f)
        dimension_classes = {'real': Real, 'integer': Integer, 'categorical': Categorical}
        if isinstance(config, dict):
            if namespace is None:
                options = next(iter(config.values()))
            else:
                options = config[namespace]
        elif isinstance(config, list):
            options = config
        else:
            raise TypeError('YaML does not specify a list or dictionary')
        dimensions = []
        for option in options:
            key = next(iter(option.keys()))
            dimension_class = key.lower()
            values = {k.lower(): v for k, v in option[key].items()}
            if dimension_class in dimension_classes:
                dimension = dimension_classes[dimension_class](**values)
                dimensions.append(dimension)
        space = cls(dimensions=dimensions)
        return space

    def rvs(self, n_samples=1, random_state=None):
        rng = check_random_state(random_state)
        columns = []
        for dim in self.dimensions:
            columns.append(dim.rvs(n_samples=n_samples, random_state=rng))
        return _transpose_list_array(columns)

    def set_transformer(self, transform):
        for j in range(self.n_dims):
            if isinstance(transform, list):
                self.dimensions[j].set_transformer(transform[j])
            else:
                self.dimensions[j].set_transformer(transform)

    def set_transformer_by_type(self, transform, dim_type):
        for j in range(self.n_dims):
            if isinstance(self.dimensions[j], dim_type):
                self.dimensions[j].set_transformer(transform)

    def get_transformer(self):
        return [self.dimensions[j].transform_ for j in range(self.n_dims)]

    def transform(self, X):
        columns = []
        for dim in self.dimensions:
            columns.append([])
        for i in range(len(X)):
            for j in range(self.n_dims):
                columns[j].append(X[i][j])
        for j in range(self.n_dims):
            columns[j] = self.dimensions[j].transform(columns[j])
        Xt = np.hstack([np.asarray(c).reshape((len(X), -1)) for c in columns])
        return Xt

    def inverse_transform(self, Xt):
        columns = []
        start = 0
        Xt = np.asarray(Xt)
        for j in range(self.n_dims):
            dim = self.dimensions[j]
            offset = dim.transformed_size
            if offset == 1:
                columns.append(dim.inverse_transform(Xt[:, start]))
            else:
                columns.append(dim.inverse_transform(Xt[:, start:start + offset]))
            start += offset
        return _transpose_list_array(columns)

    @property
    def n_dims(self):
        return len(self.dimensions)

    @property
    def transformed_n_dims(self):
        return sum([dim.transformed_size for dim in self.dimensions])

    @property
    def bounds(self):
        b = []
        for dim in self.dimensions:
            if dim.size == 1:
                b.append(dim.bounds)
            else:
                b.extend(dim.bounds)
        return b

    def __contains__(self, point):
        for component, dim in zip(point, self.dimensions):
            if component not in dim:
                return False
        return True

    def __getitem__(self, dimension_names):

        def _get(dimension_name):
            index = 0
            for dim in self.dimensions:
                if dimension_name == dim.name:
                    return (index, dim)
                elif dimension_name == index:
                    return (index, dim)
                index += 1
            return (None, None)
        if isinstance(dimension_names, (str, int)):
            dims = _get(dimension_name=dimension_names)
        elif isinstance(dimension_names, (list, tuple)):
            dims = [_get(dimension_name=name) for name in dimension_names]
        else:
            msg = 'Dimension name should be either string orlist of strings, but got {}.'
            raise ValueError(msg.format(type(dimension_names)))
        return dims

    @property
    def transformed_bounds(self):
        b = []
        for dim in self.dimensions:
            if dim.transformed_size == 1:
                b.append(dim.transformed_bounds)
            else:
                b.extend(dim.transformed_bounds)
        return b

    @property
    def is_categorical(self):
        return all([isinstance(dim, Categorical) for dim in self.dimensions])

    @property
    def is_partly_categorical(self):
        return any([isinstance(dim, Categorical) for dim in self.dimensions])

    @property
    def n_constant_dimensions(self):
        n = 0
        for dim in self.dimensions:
            if dim.is_constant:
                n += 1
        return n

    def distance(self, point_a, point_b):
        distance = 0.0
        for a, b, dim in zip(point_a, point_b, self.dimensions):
            distance += dim.distance(a, b)
        return distance
