import sys
import numpy as np
from itertools import count
from functools import partial
from scipy.optimize import OptimizeResult
from .acquisition import _gaussian_acquisition
from skopt import expected_minimum, expected_minimum_random_sampling
from .space import Categorical
from collections import Counter
if 'pytest' in sys.modules:
    import matplotlib
    matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.pyplot import cm
from matplotlib.ticker import LogLocator
from matplotlib.ticker import MaxNLocator, FuncFormatter

def plot_convergence(*args, **kwargs):
    ax = kwargs.get('ax', None)
    true_minimum = kwargs.get('true_minimum', None)
    yscale = kwargs.get('yscale', None)
    if ax is None:
        ax = plt.gca()
    ax.set_title('Convergence plot')
    ax.set_xlabel('Number of calls $n$')
    ax.set_ylabel('$\\min f(x)$ after $n$ calls')
    ax.grid()
    if yscale is not None:
        ax.set_yscale(yscale)
    colors = cm.viridis(np.linspace(0.25, 1.0, len(args)))
    for results, color in zip(args, colors):
        if isinstance(results, tuple):
            name, results = results
        else:
            name = None
        if isinstance(results, OptimizeResult):
            n_calls = len(results.x_iters)
            mins = [np.min(results.func_vals[:i]) for i in range(1, n_calls + 1)]
            ax.plot(range(1, n_calls + 1), mins, c=color, marker='.', markersize=12, lw=2, label=name)
        elif isinstance(results, list):
            n_calls = len(results[0].x_iters)
            iterations = range(1, n_calls + 1)
            mins = [[np.min(r.func_vals[:i]) for i in iterations] for r in results]
            for m in mins:
                ax.plot(iterations, m, c=color, alpha=0.2)
            ax.plot(iterations, np.mean(mins, axis=0), c=color, marker='.', markersize=12, lw=2, label=name)
    if true_minimum is not None:
        ax.axhline(true_minimum, linestyle='--', color='r', lw=1, label='True minimum')
    if true_minimum is not None or name:
        ax.legend(loc='best')
    return ax

def plot_gaussian_process(res, **kwargs):
    ax = kwargs.get('ax', None)
    n_calls = kwargs.get('n_calls', -1)
    objective = kwargs.get('objective', None)
    noise_level = kwargs.get('noise_level', 0)
    show_legend = kwargs.get('show_legend', True)
    show_title = kwargs.get('show_title', True)
    show_acq_func = kwargs.get('show_acq_func', False)
    show_next_point = kwargs.get('show_next_point', False)
    show_observations = kwargs.get('show_observations', True)
    show_mu = kwargs.get('show_mu', True)
    n_points = kwargs.get('n_points', 1000)
    if ax is None:
        ax = plt.gca()
    n_dims = res.space.n_dims
    assert n_dims == 1, 'Space dimension must be 1'
    dimension = res.space.dimensions[0]
    x, x_model = _evenly_sample(dimension, n_points)
    x = x.reshape(-1, 1)
    x_model = x_model.reshape(-1, 1)
    n_random = None
    acq_func = None
    acq_func_kwargs = None
    if res.specs is not None and 'args' in res.specs:
        n_random = res.specs['args'].get('n_random_starts', None)
        acq_func = res.specs['args'].get('acq_func', 'EI')
        acq_func_kwargs = res.specs['args'].get('acq_func_kwargs', {})
    if acq_func_kwargs is None:
        acq_func_kwargs = {}
    if acq_func is None or acq_func == 'gp_hedge':
        acq_func = 'EI'
    if n_random is None:
        n_random = len(res.x_iters) - len(res.models)
    if objective is not None:
        fx = np.array([objective(x_i) for x_i in x])
    if n_calls < 0:
        model = res.models[-1]
        curr_x_iters = res.x_iters
        curr_func_vals = res.func_vals
    else:
        model = res.models[n_calls]
        curr_x_iters = res.x_iters[:n_random + n_calls]
        curr_func_vals = res.func_vals[:n_random + n_calls]
    if objective is not None:
        ax.plot(x, fx, 'r--', label='True (unknown)')
        ax.fill(np.concatenate([x, x[::-1]]), np.concatenate(([fx_i - 1.96 * noise_level for fx_i in fx], [fx_i + 1.96 * noise_level for fx_i in fx[::-1]])), alpha=0.2, fc='r', ec='None')
    if show_mu:
        y_pred, sigma = model.predict(x_model, return_std=True)
        ax.plot(x, y_pred, 'g--', label='$\\mu_{GP}(x)$')
        ax.fill(np.concatenate([x, x[::-1]]), np.concatenate([y_pred - 1.96 * sigma, (y_pred + 1.96 * sigma)[::-1]]), alpha=0.2, fc='g', ec='None')
    if show_observations:
        ax.plot(curr_x_iters, curr_func_vals, 'r.', markersize=8, label='Observations')
    if (show_mu or show_observations or objective is not None) and show_acq_func:
        ax_ei = ax.twinx()
        ax_ei.set_ylabel(str(acq_func) + '(x)')
        plot_both = True
    else:
        ax_ei = ax
        plot_both = False
    if show_acq_func:
        acq = _gaussian_acquisition(x_model, model, y_opt=np.min(curr_func_vals), acq_func=acq_func, acq_func_kwargs=acq_func_kwargs)
        next_x = x[np.argmin(acq)]
        next_acq = acq[np.argmin(acq)]
        acq = -acq
        next_acq = -next_acq
        ax_ei.plot(x, acq, 'b', label=str(acq_func) + '(x)')
        if not plot_both:
            ax_ei.fill_between(x.ravel(), 0, acq.ravel(), alpha=0.3, color='blue')
        if show_next_point and next_x is not None:
            ax_ei.plot(next_x, next_acq, 'bo', markersize=6, label='Next query point')
    if show_title:
        ax.set_title('x* = %.4f, f(x*) = %.4f' % (res.x[0], res.fun))
    ax.grid()
    ax.set_xlabel('x')
    ax.set_ylabel('f(x)')
    if show_legend:
        if plot_both:
            lines, labels = ax.get_legend_handles_labels()
            lines2, labels2 = ax_ei.get_legend_handles_labels()
            ax_ei.legend(lines + lines2, labels + labels2, loc='best', prop={'size': 6}, numpoints=1)
        else:
            ax.legend(loc='best', prop={'size': 6}, numpoints=1)
    return ax

def plot_regret(*args, **kwargs):
    ax = kwargs.get('ax', None)
    true_minimum = kwargs.get('true_minimum', None)
    yscale = kwargs.get('yscale', None)
    if ax is None:
        ax = plt.gca()
    ax.set_title('Cumulative regret plot')
    ax.set_xlabel('Number of calls $n$')
    ax.set_ylabel('$\\sum_{i=0}^n(f(x_i) - optimum)$ after $n$ calls')
    ax.grid()
    if yscale is not None:
        ax.set_yscale(yscale)
    colors = cm.viridis(np.linspace(0.25, 1.0, len(args)))
    if true_minimum is None:
        results = []
        for res in args:
            if isinstance(res, tuple):
                res = res[1]
            if isinstance(res, OptimizeResult):
                results.append(res)
            elif isinstance(res, list):
                results.extend(res)
        true_minimum = np.min([np.min(r.func_vals) for r in results])
    for results, color in zip(args, colors):
        if isinstance(results, tuple):
            name, results = results
        else:
            name = None
        if isinstance(results, OptimizeResult):
            n_calls = len(results.x_iters)
            regrets = [np.sum(results.func_vals[:i] - true_minimum) for i in range(1, n_calls + 1)]
            ax.plot(range(1, n_calls + 1), regrets, c=color, marker='.', markersize=12, lw=2, label=name)
        elif isinstance(results, list):
            n_calls = len(results[0].x_iters)
            iterations = range(1, n_calls + 1)
            regrets = [[np.sum(r.func_vals[:i] - true_minimum) for i in iterations] for r in results]
            for cr in regrets:
                ax.plot(iterations, cr, c=color, alpha=0.2)
            ax.plot(iterations, np.mean(regrets, axis=0), c=color, marker='.', markersize=12, lw=2, label=name)
    if name:
        ax.legend(loc='best')
    return ax

def _format_scatter_plot_axes(ax, space, ylabel, plot_dims, dim_labels=None):
    diagonal_ylim = _get_ylim_diagonal(ax)
    if isinstance(ax, (list, np.ndarray)):
        n_dims = len(plot_dims)
    else:
        n_dims = 1
    if dim_labels is None:
        dim_labels = ['$X_{%i}$' % i if d.name is None else d.name for i, d in plot_dims]
    iscat = [isinstance(dim[1], Categorical) for dim in plot_dims]
    for i in range(n_dims):
        for j in range(n_dims):
            if n_dims > 1:
                ax_ = ax[i, j]
            else:
                ax_ = ax
            index_i, dim_i = plot_dims[i]
            index_j, dim_j = plot_dims[j]
            if j > i:
                ax_.axis('off')
            elif i > j:
                if not iscat[i]:
                    ax_.set_ylim(*dim_i.bounds)
                if iscat[j]:
                    ax_.xaxis.set_major_formatter(FuncFormatter(partial(_cat_format, dim_j)))
                else:
                    ax_.set_xlim(*dim_j.bounds)
                if j == 0:
                    ax_.set_ylabel(dim_labels[i])
                    if iscat[i]:
                        ax_.yaxis.set_major_formatter(FuncFormatter(partial(_cat_format, dim_i)))
                else:
                    ax_.set_yticklabels([])
                if i < n_dims - 1:
                    ax_.set_xticklabels([])
                else:
                    [l.set_rotation(45) for l in ax_.get_xticklabels()]
                    ax_.set_xlabel(dim_labels[j])
                if dim_j.prior == 'log-uniform':
                    ax_.set_xscale('log')
                else:
                    ax_.xaxis.set_major_locator(MaxNLocator(6, prune='both', integer=iscat[j]))
                if dim_i.prior == 'log-uniform':
                    ax_.set_yscale('log')
                else:
                    ax_.yaxis.set_major_locator(MaxNLocator(6, prune='both', integer=iscat[i]))
            else:
                ax_.set_ylim(*diagonal_ylim)
                if not iscat[i]:
                    low, high = dim_i.bounds
                    ax_.set_xlim(low, high)
                ax_.yaxis.tick_right()
                ax_.yaxis.set_label_position('right')
                ax_.yaxis.set_ticks_position('both')
                ax_.set_ylabel(ylabel)
                ax_.xaxis.tick_top()
                ax_.xaxis.set_label_position('top')
                ax_.set_xlabel(dim_labels[j])
                if dim_i.prior == 'log-uniform':
                    ax_.set_xscale('log')
                else:
                    ax_.xaxis.set_major_locator(MaxNLocator(6, prune='both', integer=iscat[i]))
                    if iscat[i]:
                        ax_.xaxis.set_major_formatter(FuncFormatter(partial(_cat_format, dim_i)))
    return ax

def partial_dependence(space, model, i, j=None, sample_points=None, n_samples=250, n_points=40, x_eval=None):
    if x_eval is None and sample_points is None:
        sample_points = space.transform(space.rvs(n_samples=n_samples))
    elif sample_points is None:
        sample_points = space.transform([x_eval])
    if j is None:
        return partial_dependence_1D(space, model, i, sample_points, n_points)
    else:
        return partial_dependence_2D(space, model, i, j, sample_points, n_points)

def plot_objective(result, levels=10, n_points=40, n_samples=250, size=2, zscale='linear', dimensions=None, sample_source='random', minimum='result', n_minimum_search=None, plot_dims=None, show_points=True, cmap='viridis_r'):
    space = result.space
    if plot_dims is None:
        plot_dims = []
        for row in range(space.n_dims):
            if space.dimensions[row].is_constant:
                continue
            plot_dims.append((row, space.dimensions[row]))
    else:
        plot_dims = space[plot_dims]
    n_dims = len(plot_dims)
    if dimensions is not None:
        assert len(dimensions) == n_dims
    x_vals = _evaluate_min_params(result, minimum, n_minimum_search)
    if sample_source == 'random':
        x_eval = None
        samples = space.transform(space.rvs(n_samples=n_samples))
    else:
        x_eval = _evaluate_min_params(result, sample_source, n_minimum_search)
        samples = space.transform([x_eval])
    x_samples, minimum, _ = _map_categories(space, result.x_iters, x_vals)
    if zscale == 'log':
        locator = LogLocator()
    elif zscale == 'linear':
        locator = None
    else:
        raise ValueError("Valid values for zscale are 'linear' and 'log', not '%s'." % zscale)
    fig, ax = plt.subplots(n_dims, n_dims, figsize=(size * n_dims, size * n_dims))
    fig.subplots_adjust(left=0.05, right=0.95, bottom=0.05, top=0.95, hspace=0.1, wspace=0.1)
    for i in range(n_dims):
        for j in range(n_dims):
            if i == j:
                index, dim = plot_dims[i]
                xi, yi = partial_dependence_1D(space, result.models[-1], index, samples=samples, n_points=n_points)
                if n_dims > 1:
                    ax_ = ax[i, i]
                else:
                    ax_ = ax
                ax_.plot(xi, yi)
                ax_.axvline(minimum[index], linestyle='--', color='r', lw=1)
            elif i > j:
                index1, dim1 = plot_dims[i]
                index2, dim2 = plot_dims[j]
                ax_ = ax[i, j]
                xi, yi, zi = partial_dependence_2D(space, result.models[-1], index1, index2, samples, n_points)
                ax_.contourf(xi, yi, zi, levels, locator=locator, cmap=cmap)
                if show_points:
                    ax_.scatter(x_samples[:, index2], x_samples[:, index1], c='k', s=10, lw=0.0)
                ax_.scatter(minimum[index2], minimum[index1], c=['r'], s=100, lw=0.0, marker='*')
    ylabel = 'Partial dependence'
    return _format_scatter_plot_axes(ax, space, ylabel=ylabel, plot_dims=plot_dims, dim_labels=dimensions)

def plot_evaluations(result, bins=20, dimensions=None, plot_dims=None):
    space = result.space
    samples, minimum, iscat = _map_categories(space, result.x_iters, result.x)
    order = range(samples.shape[0])
    if plot_dims is None:
        plot_dims = []
        for row in range(space.n_dims):
            if space.dimensions[row].is_constant:
                continue
            plot_dims.append((row, space.dimensions[row]))
    else:
        plot_dims = space[plot_dims]
    n_dims = len(plot_dims)
    if dimensions is not None:
        assert len(dimensions) == n_dims
    fig, ax = plt.subplots(n_dims, n_dims, figsize=(2 * n_dims, 2 * n_dims))
    fig.subplots_adjust(left=0.05, right=0.95, bottom=0.05, top=0.95, hspace=0.1, wspace=0.1)
    for i in range(n_dims):
        for j in range(n_dims):
            if i == j:
                index, dim = plot_dims[i]
                if iscat[index]:
                    bins_ = len(dim.categories)
                elif dim.prior == 'log-uniform':
                    low, high = space.bounds[index]
                    bins_ = np.logspace(np.log10(low), np.log10(high), bins)
                else:
                    bins_ = bins
                if n_dims == 1:
                    ax_ = ax
                else:
                    ax_ = ax[i, i]
                ax_.hist(samples[:, index], bins=bins_, range=None if iscat[index] else dim.bounds)
            elif i > j:
                index_i, dim_i = plot_dims[i]
                index_j, dim_j = plot_dims[j]
                ax_ = ax[i, j]
                ax_.scatter(samples[:, index_j], samples[:, index_i], c=order, s=40, lw=0.0, cmap='viridis')
                ax_.scatter(minimum[index_j], minimum[index_i], c=['r'], s=100, lw=0.0, marker='*')
    return _format_scatter_plot_axes(ax, space, ylabel='Number of samples', plot_dims=plot_dims, dim_labels=dimensions)

def _get_ylim_diagonal(ax):
    if isinstance(ax, (list, np.ndarray)):
        n_dims = len(ax)
        ylim = [ax[row, row].get_ylim() for row in range(n_dims)]
    else:
        n_dim = 1
        ylim = [ax.get_ylim()]
    ylim_lo, ylim_hi = zip(*ylim)
    ylim_min = np.min(ylim_lo)
    ylim_max = np.max(ylim_hi)
    return (ylim_min, ylim_max)

def partial_dependence_1D(space, model, i, samples, n_points=40):
    dim_locs = np.cumsum([0] + [d.transformed_size for d in space.dimensions])

    def _calc(x):
        rvs_ = np.array(samples)
        rvs_[:, dim_locs[i]:dim_locs[i + 1]] = x
        return np.mean(model.predict(rvs_))
    xi, xi_transformed = _evenly_sample(space.dimensions[i], n_points)
    yi = [_calc(x) for x in xi_transformed]
    return (xi, yi)

def partial_dependence_2D(space, model, i, j, samples, n_points=40):
    dim_locs = np.cumsum([0] + [d.transformed_size for d in space.dimensions])

    def _calc(x, y):
        rvs_ = np.array(samples)
        rvs_[:, dim_locs[j]:dim_locs[j + 1]] = x
        rvs_[:, dim_locs[i]:dim_locs[i + 1]] = y
        return np.mean(model.predict(rvs_))
    xi, xi_transformed = _evenly_sample(space.dimensions[j], n_points)
    yi, yi_transformed = _evenly_sample(space.dimensions[i], n_points)
    zi = [[_calc(x, y) for x in xi_transformed] for y in yi_transformed]
    zi = np.array(zi)
    return (xi, yi, zi)

def plot_objective_2D(result, dimension_identifier1, dimension_identifier2, n_points=40, n_samples=250, levels=10, zscale='linear', sample_source='random', minimum='result', n_minimum_search=None, ax=None):
    space = result.space
    x_vals = _evaluate_min_params(result, minimum, n_minimum_search)
    if sample_source == 'random':
        x_eval = None
        samples = space.transform(space.rvs(n_samples=n_samples))
    else:
        x_eval = _evaluate_min_params(result, sample_source, n_minimum_search)
        samples = space.transform([x_eval])
    x_samples, x_minimum, _ = _map_categories(space, result.x_iters, x_vals)
    index1, dimension1 = space[dimension_identifier1]
    index2, dimension2 = space[dimension_identifier2]
    samples1 = x_samples[:, index1]
    samples2 = x_samples[:, index2]
    best_sample1 = x_minimum[index1]
    best_sample2 = x_minimum[index2]
    last_model = result.models[-1]
    xi, yi, zi = partial_dependence_2D(space, last_model, index2, index1, samples, n_points=n_points)
    if ax is None:
        ax = plt.gca()
    locator = LogLocator() if zscale == 'log' else None
    ax.contourf(xi, yi, zi, levels, locator=locator, cmap='viridis_r')
    ax.scatter(samples1, samples2, c='black', s=10, linewidths=1)
    ax.scatter(best_sample1, best_sample2, c='red', s=50, linewidths=1, marker='*')
    ax.set_xlabel(dimension1.name)
    ax.set_ylabel(dimension2.name)
    ax.autoscale(enable=True, axis='x', tight=True)
    ax.autoscale(enable=True, axis='y', tight=True)
    if dimension1.prior == 'log-uniform':
        ax.set_xscale('log')
    if dimension2.prior == 'log-uniform':
        ax.set_yscale('log')
    return ax

def plot_histogram(result, dimension_identifier, bins=20, rotate_labels=0, ax=None):
    space = result.space
    index, dimension = space[dimension_identifier]
    samples = [x[index] for x in result.x_iters]
    if ax is None:
        ax = plt.gca()
    if isinstance(dimension, Categorical):
        counter = Counter(samples)
        names = list(counter.keys())
        counts = list(counter.values())
        x = np.arange(len(counts))
        ax.bar(x, counts, tick_label=names)
        ax.set_xticklabels(labels=names, rotation=rotate_labels)
    else:
        if dimension.prior == 'log-uniform':
            bins_mapped = np.logspace(*np.log10(dimension.bounds), bins)
        else:
            bins_mapped = bins
        ax.hist(samples, bins=bins_mapped, range=dimension.bounds)
        if dimension.prior == 'log-uniform':
            ax.set_xscale('log')
    ax.set_xlabel(dimension.name)
    ax.set_ylabel('Sample Count')
    return ax

def _map_categories(space, points, minimum):
    points = np.asarray(points, dtype=object)
    iscat = np.repeat(False, space.n_dims)
    min_ = np.zeros(space.n_dims)
    pts_ = np.zeros(points.shape)
    for i, dim in enumerate(space.dimensions):
        if isinstance(dim, Categorical):
            iscat[i] = True
            catmap = dict(zip(dim.categories, count()))
            pts_[:, i] = [catmap[cat] for cat in points[:, i]]
            min_[i] = catmap[minimum[i]]
        else:
            pts_[:, i] = points[:, i]
            min_[i] = minimum[i]
    return (pts_, min_, iscat)

def _evenly_sample(dim, n_points):
    cats = np.array(getattr(dim, 'categories', []), dtype=object)
    if len(cats):
        xi = np.linspace(0, len(cats) - 1, min(len(cats), n_points), dtype=int)
        xi_transformed = dim.transform(cats[xi])
    else:
        bounds = dim.bounds
        xi = np.linspace(bounds[0], bounds[1], n_points)
        xi_transformed = dim.transform(xi)
    return (xi, xi_transformed)

def _cat_format(dimension, x, _):
    return str(dimension.categories[int(x)])

def _evaluate_min_params(result, params='result', n_minimum_search=None, random_state=None):
    x_vals = None
    space = result.space
    if isinstance(params, str):
        if params == 'result':
            x_vals = result.x
        elif params == 'expected_minimum':
            if result.space.is_partly_categorical:
                raise ValueError('expected_minimum does not support anycategorical values')
            if n_minimum_search:
                x_vals, _ = expected_minimum(result, n_random_starts=n_minimum_search, random_state=random_state)
            else:
                x_vals, _ = expected_minimum(result, n_random_starts=20, random_state=random_state)
        elif params == 'expected_minimum_random':
            if n_minimum_search is not None:
                x_vals, _ = expected_minimum_random_sampling(result, n_random_starts=n_minimum_search, random_state=random_state)
            else:
                n_minimum_search = 10 ** len(result.x)
                x_vals, _ = expected_minimum_random_sampling(result, n_random_starts=n_minimum_search, random_state=random_state)
        else:
            raise ValueError('Argument ´eval_min_params´ must be a validstring (´result´)')
    elif isinstance(params, list):
        assert len(params) == len(result.x), 'Argument´eval_min_params´ of type list must have same length asnumber of features'
        x_vals = params
    else:
        raise ValueError('Argument ´eval_min_params´ mustbe a string or a list')
    return x_vals
