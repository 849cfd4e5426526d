from collections import defaultdict

class InitialPointGenerator(object):

    def generate(self, dimensions, n_samples, random_state=None):
        raise NotImplementedError

    def set_params(self, **params):
        if not params:
            return self
        for key, value in params.items():
            setattr(self, key, value)
        return self
