import numpy as np
import warnings
from scipy.linalg import cho_solve
from scipy.linalg import solve_triangular
import sklearn
from sklearn.gaussian_process import GaussianProcessRegressor as sk_GaussianProcessRegressor
from sklearn.utils import check_array
from .kernels import ConstantKernel
from .kernels import Sum
from .kernels import RBF
from .kernels import WhiteKernel

def _param_for_white_kernel_in_Sum(kernel, kernel_str=''):
    if kernel_str != '':
        kernel_str = kernel_str + '__'
    if isinstance(kernel, Sum):
        for param, child in kernel.get_params(deep=False).items():
            if isinstance(child, WhiteKernel):
                return (True, kernel_str + param)
            else:
                present, child_str = _param_for_white_kernel_in_Sum(child, kernel_str + param)
                if present:
                    return (True, child_str)
    return (False, '_')

class GaussianProcessRegressor(sk_GaussianProcessRegressor):

    def __init__(self, kernel=None, alpha=1e-10, optimizer='fmin_l_bfgs_b', n_restarts_optimizer=0, normalize_y=False, copy_X_train=True, random_state=None, noise=None):
        self.noise = noise
        super(GaussianProcessRegressor, self).__init__(kernel=kernel, alpha=alpha, optimizer=optimizer, n_restarts_optimizer=n_restarts_optimizer, normalize_y=normalize_y, copy_X_train=copy_X_train, random_state=random_state)

    def fit(self, X, y):
        if isinstance(self.noise, str) and self.noise != 'gaussian':
            raise ValueError("expected noise to be 'gaussian', got %s" % self.noise)
        kernel = self.kernel
        if self.kernel is None:
            self.kernel = ConstantKernel(1.0, constant_value_bounds='fixed') * RBF(1.0, length_scale_bounds='fixed')
        if self.noise == 'gaussian':
            self.kernel = self.kernel + WhiteKernel()
        elif self.noise:
            self.kernel = self.kernel + WhiteKernel(noise_level=self.noise, noise_level_bounds='fixed')
        try:
            super(GaussianProcessRegressor, self).fit(X, y)
        finally:
            self.kernel = kernel
        self.noise_ = None
        if self.noise:
            if isinstance(self.kernel_, WhiteKernel):
                self.kernel_.set_params(noise_level=0.0)
            else:
                white_present, white_param = _param_for_white_kernel_in_Sum(self.kernel_)
                if white_present:
                    noise_kernel = self.kernel_.get_params()[white_param]
                    self.noise_ = noise_kernel.noise_level
                    self.kernel_.set_params(**{white_param: WhiteKernel(noise_level=0.0)})
        L_inv = solve_triangular(self.L_.T, np.eye(self.L_.shape[0]))
        self.K_inv_ = L_inv.dot(L_inv.T)
        if sklearn.__version__ >= '0.23':
            self.y_train_std_ = self._y_train_std
            self.y_train_mean_ = self._y_train_mean
        elif sklearn.__version__ >= '0.19':
            self.y_train_mean_ = self._y_train_mean
            self.y_train_std_ = 1
        else:
            self.y_train_mean_ = self.y_train_mean
            self.y_train_std_ = 1
        return self

    def predict(self, X, return_std=False, return_cov=False, return_mean_grad=False, return_std_grad=False):
        if return_std and return_cov:
            raise RuntimeError('Not returning standard deviation of predictions when returning full covariance.')
        if return_std_grad and (not return_std):
            raise ValueError('Not returning std_gradient without returning the std.')
        X = check_array(X)
        if X.shape[0] != 1 and (return_mean_grad or return_std_grad):
            raise ValueError('Not implemented for n_samples > 1')
        if not hasattr(self, 'X_train_'):
            y_mean = np.zeros(X.shape[0])
            if return_cov:
                y_cov = self.kernel(X)
                return (y_mean, y_cov)
            elif return_std:
                y_var = self.kernel.diag(X)
                return (y_mean, np.sqrt(y_var))
            else:
                return y_mean
        else:
            K_trans = self.kernel_(X, self.X_train_)
            y_mean = K_trans.dot(self.alpha_)
            y_mean = self.y_train_std_ * y_mean + self.y_train_mean_
            if return_cov:
                v = cho_solve((self.L_, True), K_trans.T)
                y_cov = self.kernel_(X) - K_trans.dot(v)
                y_cov = y_cov * self.y_train_std_ ** 2
                return (y_mean, y_cov)
            elif return_std:
                K_inv = self.K_inv_
                y_var = self.kernel_.diag(X)
                y_var -= np.einsum('ki,kj,ij->k', K_trans, K_trans, K_inv)
                y_var_negative = y_var < 0
                if np.any(y_var_negative):
                    warnings.warn('Predicted variances smaller than 0. Setting those variances to 0.')
                    y_var[y_var_negative] = 0.0
                y_var = y_var * self.y_train_std_ ** 2
                y_std = np.sqrt(y_var)
            if return_mean_grad:
                grad = self.kernel_.gradient_x(X[0], self.X_train_)
                grad_mean = np.dot(grad.T, self.alpha_)
                grad_mean = grad_mean * self.y_train_std_
                if return_std_grad:
                    grad_std = np.zeros(X.shape[1])
                    if not np.allclose(y_std, grad_std):
                        grad_std = -np.dot(K_trans, np.dot(K_inv, grad))[0] / y_std
                        grad_std = grad_std * self.y_train_std_ ** 2
                    return (y_mean, y_std, grad_mean, grad_std)
                if return_std:
                    return (y_mean, y_std, grad_mean)
                else:
                    return (y_mean, grad_mean)
            elif return_std:
                return (y_mean, y_std)
            else:
                return y_mean
