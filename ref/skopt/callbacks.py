try:
    from collections.abc import Callable
except ImportError:
    from collections import Callable
from time import time
import numpy as np
from skopt.utils import dump

def check_callback(callback):
    if callback is not None:
        if isinstance(callback, Callable):
            return [callback]
        elif isinstance(callback, list) and all([isinstance(c, Callable) for c in callback]):
            return list(callback)
        else:
            raise ValueError('callback should be either a callable or a list of callables.')
    else:
        return []

class VerboseCallback(object):

    def __init__(self, n_total, n_init=0, n_random=0):
        self.n_init = n_init
        self.n_random = n_random
        self.n_total = n_total
        self.iter_no = 1
        self._start_time = time()
        self._print_info(start=True)

    def _print_info(self, start=True):
        iter_no = self.iter_no
        if start:
            status = 'started'
            eval_status = 'Evaluating function'
            search_status = 'Searching for the next optimal point.'
        else:
            status = 'ended'
            eval_status = 'Evaluation done'
            search_status = 'Search finished for the next optimal point.'
        if iter_no <= self.n_init:
            print('Iteration No: %d %s. %s at provided point.' % (iter_no, status, eval_status))
        elif self.n_init < iter_no <= self.n_random + self.n_init:
            print('Iteration No: %d %s. %s at random point.' % (iter_no, status, eval_status))
        else:
            print('Iteration No: %d %s. %s' % (iter_no, status, search_status))

    def __call__(self, res):
        time_taken = time() - self._start_time
        self._print_info(start=False)
        curr_y = res.func_vals[-1]
        curr_min = res.fun
        print('Time taken: %0.4f' % time_taken)
        print('Function value obtained: %0.4f' % curr_y)
        print('Current minimum: %0.4f' % curr_min)
        self.iter_no += 1
        if self.iter_no <= self.n_total:
            self._print_info(start=True)
            self._start_time = time()

class TimerCallback(object):

    def __init__(self):
        self._time = time()
        self.iter_time = []

    def __call__(self, res):
        elapsed_time = time() - self._time
        self.iter_time.append(elapsed_time)
        self._time = time()

class EarlyStopper(object):

    def __call__(self, result):
        return self._criterion(result)

    def _criterion(self, result):
        raise NotImplementedError('The _criterion method should be implemented by subclasses of EarlyStopper.')

class DeltaXStopper(EarlyStopper):

    def __init__(self, delta):
        super(EarlyStopper, self).__init__()
        self.delta = delta

    def _criterion(self, result):
        if len(result.x_iters) >= 2:
            return result.space.distance(result.x_iters[-2], result.x_iters[-1]) < self.delta
        else:
            return None

class DeltaYStopper(EarlyStopper):

    def __init__(self, delta, n_best=5):
        super(EarlyStopper, self).__init__()
        self.delta = delta
        self.n_best = n_best

    def _criterion(self, result):
        if len(result.func_vals) >= self.n_best:
            func_vals = np.sort(result.func_vals)
            worst = func_vals[self.n_best - 1]
            best = func_vals[0]
            return worst - best < self.delta
        else:
            return None

class HollowIterationsStopper(EarlyStopper):

    def __init__(self, n_iterations, threshold=0):
        super(HollowIterationsStopper, self).__init__()
        self.n_iterations = n_iterations
        self.threshold = abs(threshold)

    def _criterion(self, result):
        if len(result.func_vals) <= self.n_iterations:
            return False
        cummin = np.minimum.accumulate(result.func_vals)
        return cummin[-self.n_iterations - 1] - cummin[-1] <= self.threshold

class DeadlineStopper(EarlyStopper):

    def __init__(self, total_time):
        super(DeadlineStopper, self).__init__()
        self._time = time()
        self.iter_time = []
        self.total_time = total_time

    def _criterion(self, result):
        elapsed_time = time() - self._time
        self.iter_time.append(elapsed_time)
        self._time = time()
        if result.x_iters:
            time_remaining = self.total_time - np.sum(self.iter_time)
            return time_remaining <= np.max(self.iter_time)
        else:
            return None

class ThresholdStopper(EarlyStopper):

    def __init__(self, threshold: float) -> None:
        super(EarlyStopper, self).__init__()
        self.threshold = threshold

    def _criterion(self, result) -> bool:
        return np.any([val <= self.threshold for val in result.func_vals])

class CheckpointSaver(object):

    def __init__(self, checkpoint_path, **dump_options):
        self.checkpoint_path = checkpoint_path
        self.dump_options = dump_options

    def __call__(self, res):
        dump(res, self.checkpoint_path, **self.dump_options)
