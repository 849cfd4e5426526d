import numpy as np
from .base import InitialPointGenerator
from ..space import Space
from sklearn.utils import check_random_state

class Halton(InitialPointGenerator):

    def __init__(self, min_skip=0, max_skip=0, primes=None):
        self.primes = primes
        self.min_skip = min_skip
        self.max_skip = max_skip

    def generate(self, dimensions, n_samples, random_state=None):
        rng = check_random_state(random_state)
        if self.primes is None:
            primes = []
        else:
            primes = list(self.primes)
        space = Space(dimensions)
        n_dim = space.n_dims
        if len(primes) < n_dim:
            prime_order = 10 * n_dim
            while len(primes) < n_dim:
                primes = _create_primes(prime_order)
                prime_order *= 2
            primes = primes[:n_dim]
        assert len(primes) == n_dim, 'not enough primes'
        if self.min_skip == self.max_skip:
            skip = self.min_skip
        elif self.min_skip < 0 and self.max_skip < 0:
            skip = max(primes)
        elif self.min_skip < 0 or self.max_skip < 0:
            skip = max(self.min_skip, self.max_skip)
        else:
            skip = rng.randint(self.min_skip, self.max_skip)
        out = np.empty((n_dim, n_samples))
        indices = [idx + skip for idx in range(n_samples)]
        for dim_ in range(n_dim):
            out[dim_] = _van_der_corput_samples(indices, number_base=primes[dim_])
        transformer = space.get_transformer()
        space.set_transformer('normalize')
        out = space.inverse_transform(np.transpose(out))
        space.set_transformer(transformer)
        return out

def _van_der_corput_samples(idx, number_base=2):
    assert number_base > 1
    idx = np.asarray(idx).flatten()
    out = np.zeros(len(idx), dtype=float)
    base = float(number_base)
    active = np.ones(len(idx), dtype=bool)
    while np.any(active):
        out[active] += idx[active] % number_base / base
        idx //= number_base
        base *= number_base
        active = idx > 0
    return out

def _create_primes(threshold):
    if threshold == 2:
        return [2]
    elif threshold < 2:
        return []
    numbers = list(range(3, threshold + 1, 2))
    root_of_threshold = threshold ** 0.5
    half = int((threshold + 1) / 2 - 1)
    idx = 0
    counter = 3
    while counter <= root_of_threshold:
        if numbers[idx]:
            idy = int((counter * counter - 3) / 2)
            numbers[idy] = 0
            while idy < half:
                numbers[idy] = 0
                idy += counter
        idx += 1
        counter = 2 * idx + 3
    return [2] + [number for number in numbers if number]
