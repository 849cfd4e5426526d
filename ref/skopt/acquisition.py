import numpy as np
import warnings
from scipy.stats import norm

def gaussian_acquisition_1D(X, model, y_opt=None, acq_func='LCB', acq_func_kwargs=None, return_grad=True):
    return _gaussian_acquisition(np.expand_dims(X, axis=0), model, y_opt, acq_func=acq_func, acq_func_kwargs=acq_func_kwargs, return_grad=return_grad)

def _gaussian_acquisition(X, model, y_opt=None, acq_func='LCB', return_grad=False, acq_func_kwargs=None):
    X = np.asarray(X)
    if X.ndim != 2:
        raise ValueError('X is {}-dimensional, however, it must be 2-dimensional.'.format(X.ndim))
    if acq_func_kwargs is None:
        acq_func_kwargs = dict()
    xi = acq_func_kwargs.get('xi', 0.01)
    kappa = acq_func_kwargs.get('kappa', 1.96)
    per_second = acq_func.endswith('ps')
    if per_second:
        model, time_model = model.estimators_
    if acq_func == 'LCB':
        func_and_grad = gaussian_lcb(X, model, kappa, return_grad)
        if return_grad:
            acq_vals, acq_grad = func_and_grad
        else:
            acq_vals = func_and_grad
    elif acq_func in ['EI', 'PI', 'EIps', 'PIps']:
        if acq_func in ['EI', 'EIps']:
            func_and_grad = gaussian_ei(X, model, y_opt, xi, return_grad)
        else:
            func_and_grad = gaussian_pi(X, model, y_opt, xi, return_grad)
        if return_grad:
            acq_vals = -func_and_grad[0]
            acq_grad = -func_and_grad[1]
        else:
            acq_vals = -func_and_grad
        if acq_func in ['EIps', 'PIps']:
            if return_grad:
                mu, std, mu_grad, std_grad = time_model.predict(X, return_std=True, return_mean_grad=True, return_std_grad=True)
            else:
                mu, std = time_model.predict(X, return_std=True)
            inv_t = np.exp(-mu + 0.5 * std ** 2)
            acq_vals *= inv_t
            if return_grad:
                acq_grad *= inv_t
                acq_grad += acq_vals * (-mu_grad + std * std_grad)
    else:
        raise ValueError('Acquisition function not implemented.')
    if return_grad:
        return (acq_vals, acq_grad)
    return acq_vals

def gaussian_lcb(X, model, kappa=1.96, return_grad=False):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if return_grad:
            mu, std, mu_grad, std_grad = model.predict(X, return_std=True, return_mean_grad=True, return_std_grad=True)
            if kappa == 'inf':
                return (-std, -std_grad)
            return (mu - kappa * std, mu_grad - kappa * std_grad)
        else:
            mu, std = model.predict(X, return_std=True)
            if kappa == 'inf':
                return -std
            return mu - kappa * std

def gaussian_pi(X, model, y_opt=0.0, xi=0.01, return_grad=False):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if return_grad:
            mu, std, mu_grad, std_grad = model.predict(X, return_std=True, return_mean_grad=True, return_std_grad=True)
        else:
            mu, std = model.predict(X, return_std=True)
    if mu.ndim != 1 or std.ndim != 1:
        raise ValueError('mu and std are {}-dimensional and {}-dimensional, however both must be 1-dimensional. Did you train your model with an (N, 1) vector instead of an (N,) vector?'.format(mu.ndim, std.ndim))
    values = np.zeros_like(mu)
    mask = std > 0
    improve = y_opt - xi - mu[mask]
    scaled = improve / std[mask]
    values[mask] = norm.cdf(scaled)
    if return_grad:
        if not np.all(mask):
            return (values, np.zeros_like(std_grad))
        improve_grad = -mu_grad * std - std_grad * improve
        improve_grad /= std ** 2
        return (values, improve_grad * norm.pdf(scaled))
    return values

def gaussian_ei(X, model, y_opt=0.0, xi=0.01, return_grad=False):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if return_grad:
            mu, std, mu_grad, std_grad = model.predict(X, return_std=True, return_mean_grad=True, return_std_grad=True)
        else:
            mu, std = model.predict(X, return_std=True)
    if mu.ndim != 1 or std.ndim != 1:
        raise ValueError('mu and std are {}-dimensional and {}-dimensional, however both must be 1-dimensional. Did you train your model with an (N, 1) vector instead of an (N,) vector?'.format(mu.ndim, std.ndim))
    values = np.zeros_like(mu)
    mask = std > 0
    improve = y_opt - xi - mu[mask]
    scaled = improve / std[mask]
    cdf = norm.cdf(scaled)
    pdf = norm.pdf(scaled)
    exploit = improve * cdf
    explore = std[mask] * pdf
    values[mask] = exploit + explore
    if return_grad:
        if not np.all(mask):
            return (values, np.zeros_like(std_grad))
        improve_grad = -mu_grad * std - std_grad * improve
        improve_grad /= std ** 2
        cdf_grad = improve_grad * pdf
        pdf_grad = -improve * cdf_grad
        exploit_grad = -mu_grad * cdf - pdf_grad
        explore_grad = std_grad * pdf + pdf_grad
        grad = exploit_grad + explore_grad
        return (values, grad)
    return values
