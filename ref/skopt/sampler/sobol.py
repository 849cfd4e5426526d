from __future__ import division
import warnings
import numpy as np
from .base import InitialPointGenerator
from ..space import Space
from sklearn.utils import check_random_state

class Sobol(InitialPointGenerator):

    def __init__(self, skip=0, randomize=True):
        if not skip & skip - 1 == 0:
            raise ValueError("The balance properties of Sobol' points require skipping a power of 2.")
        if skip != 0:
            warnings.warn(f'{skip} points have been skipped: {skip} points can be generated before the sequence repeats.')
        self.skip = skip
        self.num_generated = 0
        self.randomize = randomize
        self.dim_max = 40
        self.log_max = 30
        self.atmost = 2 ** self.log_max - 1
        self.lastq = None
        self.maxcol = None
        self.poly = None
        self.recipd = None
        self.seed_save = -1
        self.v = np.zeros((self.dim_max, self.log_max))
        self.dim_num_save = -1

    def init(self, dim_num):
        self.dim_num_save = dim_num
        self.v = np.zeros((self.dim_max, self.log_max))
        self.v[0:40, 0] = np.transpose([1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1])
        self.v[2:40, 1] = np.transpose([1, 3, 1, 3, 1, 3, 3, 1, 3, 1, 3, 1, 3, 1, 1, 3, 1, 3, 1, 3, 1, 3, 3, 1, 3, 1, 3, 1, 3, 1, 1, 3, 1, 3, 1, 3, 1, 3])
        self.v[3:40, 2] = np.transpose([7, 5, 1, 3, 3, 7, 5, 5, 7, 7, 1, 3, 3, 7, 5, 1, 1, 5, 3, 3, 1, 7, 5, 1, 3, 3, 7, 5, 1, 1, 5, 7, 7, 5, 1, 3, 3])
        self.v[5:40, 3] = np.transpose([1, 7, 9, 13, 11, 1, 3, 7, 9, 5, 13, 13, 11, 3, 15, 5, 3, 15, 7, 9, 13, 9, 1, 11, 7, 5, 15, 1, 15, 11, 5, 3, 1, 7, 9])
        self.v[7:40, 4] = np.transpose([9, 3, 27, 15, 29, 21, 23, 19, 11, 25, 7, 13, 17, 1, 25, 29, 3, 31, 11, 5, 23, 27, 19, 21, 5, 1, 17, 13, 7, 15, 9, 31, 9])
        self.v[13:40, 5] = np.transpose([37, 33, 7, 5, 11, 39, 63, 27, 17, 15, 23, 29, 3, 21, 13, 31, 25, 9, 49, 33, 19, 29, 11, 19, 27, 15, 25])
        self.v[19:40, 6] = np.transpose([13, 33, 115, 41, 79, 17, 29, 119, 75, 73, 105, 7, 59, 65, 21, 3, 113, 61, 89, 45, 107])
        self.v[37:40, 7] = np.transpose([7, 23, 39])
        self.poly = [1, 3, 7, 11, 13, 19, 25, 37, 59, 47, 61, 55, 41, 67, 97, 91, 109, 103, 115, 131, 193, 137, 145, 143, 241, 157, 185, 167, 229, 171, 213, 191, 253, 203, 211, 239, 247, 285, 369, 299]
        self.maxcol = _bit_hi1(self.atmost)
        self.v[0, 0:self.maxcol] = 1
        if dim_num < 1 or self.dim_max < dim_num:
            raise ValueError(f'I4_SOBOL - Fatal error!\n  The spatial dimension DIM_NUM should satisfy:\n  1 <= DIM_NUM <= {self.dim_max}\n  But this input value is DIM_NUM = {dim_num}')
        for i in range(2, dim_num + 1):
            j = self.poly[i - 1]
            m = 0
            j //= 2
            while j > 0:
                j //= 2
                m += 1
            j = self.poly[i - 1]
            includ = np.zeros(m)
            for k in range(m, 0, -1):
                j2 = j // 2
                includ[k - 1] = j != 2 * j2
                j = j2
            for j in range(m + 1, self.maxcol + 1):
                newv = self.v[i - 1, j - m - 1]
                p2 = 1
                for k in range(1, m + 1):
                    p2 *= 2
                    if includ[k - 1]:
                        newv = np.bitwise_xor(int(newv), int(p2 * self.v[i - 1, j - k - 1]))
                self.v[i - 1, j - 1] = newv
        p2 = 1
        for j in range(self.maxcol - 1, 0, -1):
            p2 *= 2
            self.v[0:dim_num, j - 1] = self.v[0:dim_num, j - 1] * p2
        self.recipd = 1.0 / (2 * p2)
        self.lastq = np.zeros(dim_num)

    def generate(self, dimensions, n_samples, random_state=None):
        total_n_samples = self.num_generated + n_samples
        if not total_n_samples & total_n_samples - 1 == 0:
            warnings.warn("The balance properties of Sobol' points require n to be a power of 2. {0} points have been previously generated, then: n={0}+{1}={2}. ".format(self.num_generated, n_samples, total_n_samples))
        if self.skip != 0 and total_n_samples > self.skip:
            raise ValueError(f'{self.skip} points have been skipped: generating {n_samples} more points would cause the sequence to repeat.')
        rng = check_random_state(random_state)
        space = Space(dimensions)
        n_dim = space.n_dims
        r = np.full((n_samples, n_dim), np.nan)
        seed = self.skip
        for j in range(n_samples):
            r[j, 0:n_dim], seed = self._sobol(n_dim, seed)
        if self.randomize:
            r = _random_shift(r, rng)
        transformer = space.get_transformer()
        space.set_transformer('normalize')
        r = space.inverse_transform(r)
        space.set_transformer(transformer)
        self.num_generated += n_samples
        return r

    def _sobol(self, dim_num, seed):
        if dim_num != self.dim_num_save:
            self.init(dim_num)
        seed = int(np.floor(seed))
        if seed < 0:
            seed = 0
        pos_lo0 = 1
        if seed == 0:
            self.lastq = np.zeros(dim_num)
        elif seed == self.seed_save + 1:
            pos_lo0 = _bit_lo0(seed)
        elif seed <= self.seed_save:
            self.seed_save = 0
            self.lastq = np.zeros(dim_num)
            for seed_temp in range(int(self.seed_save), int(seed)):
                pos_lo0 = _bit_lo0(seed_temp)
                for i in range(1, dim_num + 1):
                    self.lastq[i - 1] = np.bitwise_xor(int(self.lastq[i - 1]), int(self.v[i - 1, pos_lo0 - 1]))
            pos_lo0 = _bit_lo0(seed)
        elif self.seed_save + 1 < seed:
            for seed_temp in range(int(self.seed_save + 1), int(seed)):
                pos_lo0 = _bit_lo0(seed_temp)
                for i in range(1, dim_num + 1):
                    self.lastq[i - 1] = np.bitwise_xor(int(self.lastq[i - 1]), int(self.v[i - 1, pos_lo0 - 1]))
            pos_lo0 = _bit_lo0(seed)
        if self.maxcol < pos_lo0:
            raise ValueError(f'I4_SOBOL - Fatal error!\n Too many calls!\n MAXCOL = {self.maxcol}\n L =      {pos_lo0}\n')
        quasi = np.zeros(dim_num)
        for i in range(1, dim_num + 1):
            quasi[i - 1] = self.lastq[i - 1] * self.recipd
            self.lastq[i - 1] = np.bitwise_xor(int(self.lastq[i - 1]), int(self.v[i - 1, pos_lo0 - 1]))
        self.seed_save = seed
        seed += 1
        return [quasi, seed]

def _bit_hi1(n):
    bin_repr = np.binary_repr(n)
    most_left_one = bin_repr.find('1')
    if most_left_one == -1:
        return 0
    else:
        return len(bin_repr) - most_left_one

def _bit_lo0(n):
    bin_repr = np.binary_repr(n)
    most_right_zero = bin_repr[::-1].find('0')
    if most_right_zero == -1:
        most_right_zero = len(bin_repr)
    return most_right_zero + 1

def _random_shift(dm, random_state=None):
    rng = check_random_state(random_state)
    shift = np.repeat(rng.rand(1, dm.shape[1]), dm.shape[0], axis=0)
    return (dm + shift) % 1
