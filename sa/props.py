"""The property table: statement of every property, and the obligations that
decide it.

A target line is  "[?]<function> : <slices> [~ <masked callees>]".
  functions are given without the leading "skopt."; "?" marks a private
  function that may be renamed or merged (then its public callers carry it).
  "Class.method" is resolved through the class hierarchy of the package;
  "@set" marks a property setter; "class:" compares bases and class
  attributes; "exports:" compares the public names of a module.
  slices: ret raises events self self.<field> params sig | * (all of them)
  masked callees: calls whose value is irrelevant for the property.
A rule line is  "rule:<name> <modules>"  (see rules.py)."""

OPT = "optimizer.optimizer.Optimizer"
SP = "space.space"
TR = "space.transformers"
KER = "learning.gaussian_process.kernels"
GPR = "learning.gaussian_process.gpr.GaussianProcessRegressor"

DIMS = ("Real", "Integer", "Categorical")
STOPPERS = ("DeltaXStopper", "DeltaYStopper", "DeadlineStopper", "HollowIterationsStopper", "ThresholdStopper")
SAMPLERS = ("sobol.Sobol", "lhs.Lhs", "halton.Halton", "hammersly.Hammersly", "grid.Grid")
XFORMS = ("Identity", "StringEncoder", "LogN", "CategoricalEncoder", "LabelEncoder", "Normalize", "Pipeline")
KERNELS = ("RBF", "Matern", "RationalQuadratic", "ExpSineSquared", "ConstantKernel", "WhiteKernel",
           "DotProduct", "Sum", "Product", "Exponentiation")
MINIMIZERS = ("optimizer.base.base_minimize", "optimizer.gp.gp_minimize", "optimizer.forest.forest_minimize",
              "optimizer.gbrt.gbrt_minimize", "optimizer.dummy.dummy_minimize")

# values that choose among candidates but do not decide where candidates lie
CHOICE = "~ _gaussian_acquisition argmin argmax argsort multinomial predict warn"

TRANSFORM = ["%s.%s.%s : ret" % (TR, c, m) for c in XFORMS for m in ("transform", "inverse_transform")] + \
    ["%s.%s.fit : ret self" % (TR, c) for c in ("CategoricalEncoder", "LabelEncoder", "StringEncoder", "Pipeline")] + \
    ["%s.%s.__init__ : self own" % (TR, c) for c in ("LogN", "CategoricalEncoder", "LabelEncoder", "StringEncoder", "Normalize", "Pipeline")]
DIMTRANS = ["%s.%s.%s : ret" % (SP, c, m) for c in DIMS for m in ("transform", "inverse_transform")] + \
    ["%s.%s.set_transformer : self" % (SP, c) for c in DIMS]
DIMINIT = ["%s.%s.__init__ : self" % (SP, c) for c in DIMS]

P = []


def prop(id, title, statement, over, quant, why, targets, files=None, mech=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  targets=targets, files=files, mech=mech or [], note=note))


# ------------------------------------------------------------------ optimizer
prop("P01", "Suggested points always lie inside the search space",
     "Every point returned by Optimizer.ask, single or batched, is a list with one value per dimension and every "
     "value is a member of its dimension, whatever the estimator, acquisition optimiser, transformation, prior "
     "and history. Points proposed by the acquisition optimiser are clipped to the transformed bounds and mapped back "
     "to the original space before they are returned.",
     ["inputs", "histories", "configurations"],
     "all spaces x estimators x acquisition settings x tell histories",
     "tests sample a few spaces and seeds; membership must survive every rounding and every surrogate",
     ["%s.ask : ret %s" % (OPT, CHOICE),
      "%s.tell : self._next_x self.next_xs_ %s" % (OPT, CHOICE),
      "%s.Space.rvs : ret" % SP, "%s.Space.inverse_transform : ret" % SP, "%s.Space.transform : ret" % SP,
      "%s.Space.transformed_bounds : ret" % SP, "%s.Space.is_categorical : ret" % SP]
     + ["%s.%s.inverse_transform : ret" % (SP, c) for c in DIMS]
     + ["%s.%s.transformed_bounds : ret" % (SP, c) for c in DIMS]
     + ["%s.%s.rvs : ret" % (SP, c) for c in DIMS]
     + ["%s.%s.set_transformer : self" % (SP, c) for c in DIMS]
     + ["%s.%s.inverse_transform : ret" % (TR, c) for c in XFORMS],
     mech=[("clip to transformed bounds", "skopt/optimizer/optimizer.py:Optimizer._tell"),
           ("inverse transformation with clipping", "skopt/space/space.py:Real.inverse_transform")])

prop("P02", "The recorded history is exactly what was told, in order",
     "After any sequence of tell calls the optimizer's points and values are the told points and values, in the "
     "order they were told, with one value per point; nothing is dropped, duplicated or reordered, for single "
     "observations and batches alike. The number of outstanding initial points goes down by the number of points told.",
     ["histories", "inputs"], "all sequences of single and batch tells, with and without fit and per second objectives",
     "tests tell short fixed sequences",
     ["%s.tell : self.Xi self.yi self._n_initial_points" % OPT,
      "utils.is_listlike : ret", "utils.is_2Dlistlike : ret",
      "%s.run : events" % OPT],
     mech=[("append / extend of points and values", "skopt/optimizer/optimizer.py:Optimizer._tell")])

prop("P03", "A rejected observation leaves no trace",
     "tell raises for points outside the space, values that are not numbers, and batches whose points and values "
     "differ in number, and does so before anything is recorded. After the exception the optimizer is in the "
     "state it was in before the call.",
     ["inputs", "histories", "fault_sequences"], "all malformed tell arguments after all histories",
     "tests check that some malformed calls raise, not that the state is untouched",
     ["%s.tell : raises self.Xi self.yi self._n_initial_points self.cache_" % OPT,
      "utils.check_x_in_space : raises", "utils.is_listlike : ret", "utils.is_2Dlistlike : ret",
      "utils.check_list_types : ret",
      "%s.Space.__contains__ : ret" % SP] + ["%s.%s.__contains__ : ret" % (SP, c) for c in DIMS],
     mech=[("validation precedes recording", "skopt/optimizer/optimizer.py:Optimizer.tell")])

prop("P04", "Results report the best observation and are snapshots",
     "Every result holds all evaluated points and values in evaluation order, its fun is the minimum of the "
     "values, its x is the first point that attained it, and it refers to the optimizer's space, random state, models and call "
     "specification. A result that was handed out is not changed by later evaluations.",
     ["histories", "inputs"], "all histories, scalar and per second objectives, and all ways to obtain a result",
     "tests look at final results of a few runs; aliasing shows only when a result is kept while the run goes on",
     ["utils.create_result : * own", "%s.get_result : ret" % OPT, "%s.tell : ret" % OPT, "%s.run : ret" % OPT,
      "optimizer.base.base_minimize : ret"],
     mech=[("result construction", "skopt/utils.py:create_result")])

prop("P05", "The objective is evaluated exactly as often as asked",
     "A minimisation evaluates the objective exactly n_calls times unless a callback stops it, counting the "
     "given x0 only when their values are not given; impossible budgets are rejected before any evaluation. "
     "Each suggested point is evaluated once and told with its own value.",
     ["configurations", "inputs"], "all combinations of n_calls, initial points, x0 and y0, and callback decisions",
     "tests cover a handful of combinations of x0, y0 and budget",
     ["optimizer.base.base_minimize : events raises ret", "optimizer.dummy.dummy_minimize : events raises ret",
      "%s.run : events ret" % OPT,
      "optimizer.gp.gp_minimize : events ret raises", "optimizer.forest.forest_minimize : events ret raises",
      "optimizer.gbrt.gbrt_minimize : events ret raises", "utils.eval_callbacks : ret"],
     mech=[("budget loop", "skopt/optimizer/base.py:base_minimize")])

prop("P06", "Initial design comes first, in generator order",
     "While fewer than n_initial_points observations have been told, ask returns the points of the initial point "
     "generator in order, or fresh random points for the random generator, and no model is used; from then on the model decides. "
     "Points given as x0 are evaluated before the initial design.",
     ["histories", "configurations"], "all generators, initial counts and interleavings of ask and tell",
     "tests check the first few points of some generators",
     ["%s.ask : ret ~ min abs distance warn" % OPT, "%s.tell : self._n_initial_points" % OPT,
      "%s.__init__ : self._initial_samples self._n_initial_points self.n_initial_points_ self._initial_point_generator raises" % OPT,
      "utils.cook_initial_point_generator : ret raises",
      "optimizer.base.base_minimize : events"],
     mech=[("initial samples index", "skopt/optimizer/optimizer.py:Optimizer._ask")])

prop("P07", "Results are reproducible from random_state",
     "All randomness of a run comes from the given random_state: two runs with equal arguments and equal integer seeds "
     "evaluate the same points. No part of the library draws from or reseeds the global random generator.",
     ["configurations", "inputs", "histories"], "all public entry points that accept random_state",
     "tests compare two runs of few configurations; a draw from the global generator on a rare path stays unseen",
     ["rule:rng optimizer utils space sampler learning acquisition searchcv plots benchmarks callbacks",
      "%s.__init__ : self.rng self._initial_samples self.base_estimator_" % OPT,
      "%s.tell : self._next_x self.gains_" % OPT, "%s.ask : ret" % OPT, "%s.update_next : self" % OPT,
      "%s.Space.rvs : ret" % SP] + ["%s.%s.rvs : ret" % (SP, c) for c in DIMS]
     + ["sampler.%s.generate : ret" % c for c in SAMPLERS]
     + ["optimizer.base.base_minimize : events ret", "optimizer.gp.gp_minimize : ret events",
        "optimizer.forest.forest_minimize : ret events", "optimizer.gbrt.gbrt_minimize : ret events",
        "optimizer.dummy.dummy_minimize : ret events",
        "utils.cook_estimator : ret",
        "utils.expected_minimum : ret", "utils.expected_minimum_random_sampling : ret",
        "searchcv.BayesSearchCV._run_search : events self",
        "learning.gbrt.GradientBoostingQuantileRegressor.fit : self events",
        "%s.fit : self events" % GPR],
     mech=[("check_random_state", "skopt/optimizer/optimizer.py:Optimizer.__init__")])

prop("P08", "Asking does not change the optimizer; repeated asks agree",
     "Between two tells, repeated single asks after the initial design return the same point, and repeated batch asks with the "
     "same size and strategy return the same batch; a tell or update_next discards the cached batch. Asking never alters "
     "the recorded history, the models or the pending suggestion.",
     ["histories", "configurations"], "all interleavings of ask(n), ask() and tell",
     "tests repeat single calls; interleavings of batch sizes and strategies are unbounded",
     ["%s.ask : ret raises self" % OPT, "%s.tell : self.cache_ self._next_x" % OPT, "%s.update_next : self" % OPT],
     mech=[("cache of batch suggestions", "skopt/optimizer/optimizer.py:Optimizer.ask")])

prop("P09", "Copies are independent and equivalent",
     "Optimizer.copy returns an optimizer with the same space, estimator, acquisition settings, initial design, history, "
     "hedge gains and model queue size. Telling or asking the copy leaves the original unchanged.",
     ["histories", "configurations"], "all configurations and histories at the time of the copy",
     "tests copy one optimizer and compare a few attributes",
     ["%s.copy : ret raises self events own" % OPT, "%s.update_next : self" % OPT,
      "%s.__init__ : self raises" % OPT],
     mech=[("copy constructor", "skopt/optimizer/optimizer.py:Optimizer.copy")])

prop("P10", "Surrogates are fitted on all data, once due, and queued",
     "A fresh clone of the base estimator is fitted to the transformed complete history exactly when a tell with fit leaves no "
     "outstanding initial points. Each fitted model is appended to the model list, which never exceeds the queue size and drops "
     "the oldest model first; without a queue size all models are kept.",
     ["histories", "configurations"], "all tell histories, fit flags and queue sizes",
     "tests count models for one or two short runs",
     ["%s.tell : self.models events" % OPT,
      "%s.__init__ : raises self.max_model_queue_size self.models self.base_estimator_" % OPT,
      "%s.Space.transform : ret" % SP, "utils.cook_estimator : ret raises"],
     mech=[("model fitting and queue", "skopt/optimizer/optimizer.py:Optimizer._tell")])

prop("P11", "The suggestion minimises the acquisition function",
     "With the sampling optimiser the next point is the candidate with the smallest acquisition value among n_points random candidates; with "
     "lbfgs it is the best of the local searches started from the n_restarts_optimizer best candidates within the transformed bounds. The acquisition function is "
     "evaluated with the newest model, the smallest objective value seen, and the given parameters.",
     ["configurations", "histories"], "all acquisition functions, optimisers, spaces and histories",
     "tests check convergence on easy functions, which a mediocre choice of candidates also reaches",
     ["%s.tell : self._next_x self.next_xs_" % OPT, "%s.ask : ret" % OPT,
      "?acquisition._gaussian_acquisition : ret raises", "acquisition.gaussian_acquisition_1D : ret raises",
      "%s.__init__ : self.acq_optimizer self.n_points self.n_restarts_optimizer self.n_jobs self.acq_func self.acq_func_kwargs self.cand_acq_funcs_ raises" % OPT,
      "utils.has_gradients : ret"],
     mech=[("candidate selection", "skopt/optimizer/optimizer.py:Optimizer._tell")])

prop("P12", "gp_hedge selects by softmax of accumulated gains",
     "With gp_hedge each of EI, LCB and PI proposes its own candidate, and one is drawn with probability proportional to exp(eta times gain). "
     "After the next model is fitted every gain is decreased by the new model's mean at the candidate its own function proposed before.",
     ["histories", "configurations"], "all histories with gp_hedge and all eta",
     "randomised choice: a wrong sign or stale candidate still optimises easy functions",
     ["%s.tell : self.gains_ self.next_xs_ self._next_x" % OPT,
      "%s.__init__ : self.gains_ self.cand_acq_funcs_ self.eta" % OPT, "%s.copy : ret" % OPT],
     mech=[("gains update and softmax", "skopt/optimizer/optimizer.py:Optimizer._tell")])

prop("P13", "Batches follow the constant liar strategy",
     "ask(n) returns n points: each comes from a private copy that has been told the previous points of the batch with the minimum, mean or "
     "maximum of the observed objective values as the lie, and the lies never reach the optimizer itself. Unknown strategies and sizes that are not positive integers are rejected.",
     ["histories", "configurations", "inputs"], "all batch sizes, strategies, acquisition functions and histories",
     "tests check only batch length and distinctness",
     ["%s.ask : ret raises self" % OPT, "%s.copy : ret" % OPT, "%s.tell : self.Xi self.yi self._n_initial_points" % OPT],
     mech=[("constant liar loop", "skopt/optimizer/optimizer.py:Optimizer.ask")])

prop("P14", "Per second acquisition treats value and time separately",
     "For EIps and PIps every observation is a (value, time) pair: the logarithm of the time is taken once, the best value compares objective "
     "values only, the two outputs are modelled separately, and results report the objective values with log times apart. Observations that are not pairs are rejected.",
     ["histories", "inputs", "configurations"], "all histories of (value, time) pairs, single and batch",
     "tests run a few per second optimisations and check that they finish",
     ["%s.tell : self.yi raises self.next_xs_" % OPT, "%s.ask : ret" % OPT,
      "%s.__init__ : self.base_estimator_" % OPT,
      "utils.create_result : ret", "?acquisition._gaussian_acquisition : ret raises", "acquisition.gaussian_acquisition_1D : ret raises",
      "optimizer.gp.gp_minimize : ret"],
     mech=[("per second handling", "skopt/optimizer/optimizer.py:Optimizer.tell")])

prop("P15", "Acquisition values follow their published formulas",
     "gaussian_lcb returns mean minus kappa times the standard deviation, or minus the standard deviation for kappa 'inf'; gaussian_pi returns the normal cdf of (y_opt - xi - mean) / std, "
     "and gaussian_ei returns std times (z cdf(z) + pdf(z)), both zero where std is not positive. EI and PI enter minimisation negated, "
     "and the per second variants are divided by the expected time.",
     ["inputs", "configurations"], "all models, points, y_opt, xi and kappa",
     "tests compare a few constant-mean models; a wrong term can vanish there",
     ["acquisition.gaussian_lcb : ret raises", "acquisition.gaussian_pi : ret raises", "acquisition.gaussian_ei : ret raises",
      "?acquisition._gaussian_acquisition : ret raises", "acquisition.gaussian_acquisition_1D : ret raises sig"],
     mech=[("formulas", "skopt/acquisition.py")])

prop("P16", "Acquisition gradients are the derivatives of the values",
     "Wherever an acquisition function returns a gradient, it is the derivative of the returned value with respect to the query point, with the sign used in "
     "minimisation and zero where the value is constantly zero. The value is the same whether or not the gradient is requested.",
     ["inputs", "configurations"], "all models with gradients, query points, xi, kappa and y_opt",
     "tests compare finite differences at a few random points",
     ["acquisition.gaussian_lcb : ret", "acquisition.gaussian_pi : ret", "acquisition.gaussian_ei : ret",
      "?acquisition._gaussian_acquisition : ret raises", "acquisition.gaussian_acquisition_1D : ret raises"],
     mech=[("gradient chain rule", "skopt/acquisition.py:gaussian_ei")])

# ------------------------------------------------------------------ learners
prop("P17", "GP fit and prediction implement the noise and scaling contract",
     "With noise 'gaussian' a white kernel is fitted along and removed from the prediction kernel, its level reported as noise_; predictions are the posterior mean, standard deviation or covariance "
     "in the units of y, prior statistics before fitting. Contradictory requests are rejected, and the kernel given by the user is not altered.",
     ["inputs", "configurations"], "all kernels, noise settings, normalize_y and return flags",
     "tests fit few kernels on few data sets",
     ["%s.fit : *" % GPR, "%s.predict : *" % GPR, "%s.__init__ : *" % GPR, "class:%s" % GPR],
     mech=[("white noise removal", "skopt/learning/gaussian_process/gpr.py:GaussianProcessRegressor.fit")])

prop("P18", "GP mean, std and kernel gradients are exact derivatives",
     "predict's mean and standard deviation gradients are the derivatives of the returned mean and standard deviation with respect to the query point, zero where the variance vanishes. Every kernel's "
     "gradient is the derivative of the kernel value between the query point and the training points, also for sums, products and powers of kernels.",
     ["inputs", "programs"], "all kernel expressions, hyperparameters and query points",
     "tests compare finite differences for some kernels and random points; kernel composition is unbounded",
     ["%s.predict : ret raises" % GPR] + ["%s.%s.gradient_x : ret raises" % (KER, k) for k in KERNELS]
     + ["%s.%s.__add__ : ret" % (KER, "Kernel"), "%s.Kernel.__radd__ : ret" % KER, "%s.Kernel.__mul__ : ret" % KER,
        "%s.Kernel.__rmul__ : ret" % KER, "%s.Kernel.__pow__ : ret" % KER, "%s.Kernel.gradient_x : ret raises" % KER]
     + ["class:%s.%s" % (KER, k) for k in KERNELS],
     mech=[("kernel gradients", "skopt/learning/gaussian_process/kernels.py")])

prop("P19", "The Hamming kernel computes its documented similarity",
     "HammingKernel returns exp(-sum of length scales over the coordinates that differ), which is one on the diagonal and symmetric, and its hyperparameter gradient is the derivative with respect to the log length scales. "
     "It rejects length scales whose number does not fit the data and gradients for two different inputs.",
     ["inputs", "configurations"], "all category vectors and length scales",
     "tests evaluate few small matrices",
     ["%s.HammingKernel.__call__ : ret raises" % KER, "%s.HammingKernel.__init__ : self sig" % KER,
      "%s.HammingKernel.hyperparameter_length_scale : ret" % KER, "class:%s.HammingKernel" % KER],
     mech=[("Hamming kernel", "skopt/learning/gaussian_process/kernels.py:HammingKernel.__call__")])

prop("P20", "Forest uncertainty is the law of total variance",
     "For random forests and extra trees the predictive standard deviation is the square root of the mean over trees of (leaf variance floored at min_variance plus squared tree mean) minus the squared ensemble mean, floored at zero, and the mean is the plain ensemble prediction. "
     "A standard deviation is returned only for the squared error criterion; other criteria are rejected.",
     ["inputs", "configurations"], "all fitted forests, inputs and min_variance",
     "tests check few forests on few points",
     ["?learning.forest._return_std : ret", "learning.forest.RandomForestRegressor.predict : ret raises",
      "learning.forest.ExtraTreesRegressor.predict : ret raises",
      "learning.forest.RandomForestRegressor.__init__ : self sig events", "learning.forest.ExtraTreesRegressor.__init__ : self sig events"],
     mech=[("total variance", "skopt/learning/forest.py:_return_std")])

prop("P21", "Quantile boosting predicts its quantiles",
     "The quantile regressor fits one copy of the base estimator per requested quantile with that quantile as its loss level and seeds drawn from its own random state, and leaves the given base estimator unchanged. "
     "Prediction returns the median, optionally half the spread of the 16% and 84% quantiles as standard deviation or all requested quantiles in order.",
     ["inputs", "configurations"], "all quantile lists, base estimators and inputs",
     "tests use the default quantiles",
     ["learning.gbrt.GradientBoostingQuantileRegressor.fit : *", "learning.gbrt.GradientBoostingQuantileRegressor.predict : *",
      "learning.gbrt.GradientBoostingQuantileRegressor.__init__ : *"],
     mech=[("one regressor per quantile", "skopt/learning/gbrt.py:GradientBoostingQuantileRegressor.fit")])

prop("P22", "Named surrogates are built as documented",
     "A surrogate name is turned into an estimator of the named kind with the documented kernel, noise, criterion, leaf size and quantiles, and further keyword arguments override its parameters; names are case insensitive, "
     "instances are taken as they are, and everything else is rejected. Categorical-only spaces get the Hamming kernel and Matern is used otherwise.",
     ["configurations", "inputs"], "all names, spaces and parameters",
     "tests instantiate each name once",
     ["utils.cook_estimator : ret raises", "utils.has_gradients : ret raises",
      "optimizer.gp.gp_minimize : ret raises sig", "optimizer.forest.forest_minimize : ret raises sig", "optimizer.gbrt.gbrt_minimize : ret raises sig",
      "%s.__init__ : self.base_estimator_ self.acq_optimizer raises" % OPT,
      "optimizer.base.base_minimize : raises events"],
     mech=[("estimator cooking", "skopt/utils.py:cook_estimator")])

# ------------------------------------------------------------------ space
prop("P23", "Transform and inverse transform are inverse on every space",
     "For every dimension and space, mapping members to the transformed space and back gives the original values (reals up to rounding, clipped to the bounds; integers, categories and their types exactly), with points and dimensions in their original order. Transforming "
     "never changes the points it is given.",
     ["inputs", "configurations"], "all dimensions, priors, bases, transformations and points",
     "tests round trip sampled points of few spaces",
     ["%s.Space.transform : *" % SP, "%s.Space.inverse_transform : *" % SP] + TRANSFORM + DIMTRANS,
     mech=[("transformers", "skopt/space/transformers.py"), ("column slicing", "skopt/space/space.py:Space.inverse_transform")])

prop("P24", "Transformed layout: sizes and columns match the dimensions",
     "A space's transformed dimensionality is the sum of its dimensions' transformed sizes, and the transformed matrix gives each dimension exactly that many consecutive columns in dimension order: one per numeric or label or normalised dimension, "
     "one per category for one-hot except a single one for two categories.",
     ["inputs", "configurations"], "all spaces and transformations",
     "tests check few fixed spaces",
     ["%s.Space.transformed_n_dims : ret" % SP, "%s.Space.transform : ret" % SP, "%s.Space.inverse_transform : ret" % SP,
      "%s.Space.n_dims : ret" % SP, "%s.CategoricalEncoder.transform : ret" % TR, "%s.CategoricalEncoder.fit : ret self" % TR]
     + ["%s.%s.transformed_size : ret" % (SP, c) for c in DIMS] + ["%s.%s.size : ret" % (SP, c) for c in DIMS],
     mech=[("transformed sizes", "skopt/space/space.py:Space.transformed_n_dims")])

prop("P25", "Transformed bounds enclose every transformed member",
     "For every dimension and space the transformed bounds are the transforms of the original bounds: [0, 1] for normalised and one-hot columns, logarithms in the dimension's base for log-uniform ones, all labels for label encoded ones, otherwise the bounds "
     "themselves; one pair per transformed column, in column order.",
     ["inputs", "configurations"], "all dimensions, priors, bases and transformations",
     "tests check default bases and few transformations",
     ["%s.Space.transformed_bounds : ret" % SP] + ["%s.%s.transformed_bounds : ret" % (SP, c) for c in DIMS]
     + ["%s.%s.transformed_size : ret" % (SP, c) for c in DIMS] + ["%s.%s.set_transformer : self" % (SP, c) for c in DIMS] + DIMINIT,
     mech=[("transformed_bounds", "skopt/space/space.py")])

prop("P26", "Membership and bounds agree with the dimension's definition",
     "A numeric dimension contains exactly the values between its inclusive bounds, a categorical dimension exactly its categories, and a space exactly the points whose coordinates are contained in their dimensions; lists of points are checked "
     "point by point. bounds reports the definition's bounds or categories in dimension order.",
     ["inputs"], "all points and dimensions", "tests check few points",
     ["%s.Space.__contains__ : ret" % SP, "%s.Space.bounds : ret" % SP, "utils.check_x_in_space : raises ret"]
     + ["%s.%s.__contains__ : ret raises" % (SP, c) for c in DIMS] + ["%s.%s.bounds : ret" % (SP, c) for c in DIMS] + DIMINIT,
     mech=[("__contains__", "skopt/space/space.py")])

prop("P27", "Distances are per-dimension sums and reject foreign points",
     "The distance of two points of a space is the sum of the distances in their dimensions: absolute difference for numbers, zero or one for categories. It is defined only for members; other values are rejected.",
     ["inputs"], "all pairs of points", "tests check few pairs",
     ["%s.Space.distance : ret raises" % SP] + ["%s.%s.distance : ret raises" % (SP, c) for c in DIMS]
     + ["%s.%s.__contains__ : ret" % (SP, c) for c in DIMS],
     mech=[("distance", "skopt/space/space.py:Space.distance")])

prop("P28", "Random samples follow the prior and stay inside",
     "rvs draws the requested number of points from the given random state: uniform, or uniform in the logarithm of the dimension's base for log-uniform priors, and by the given probabilities for categories, whatever transformation is set, mapped through the inverse transformation so that each value is a member. "
     "Every dimension draws independently from the same generator.",
     ["inputs", "configurations"], "all dimensions, priors, transformations, sizes and seeds",
     "tests sample few dimensions and check ranges",
     ["%s.Space.rvs : ret" % SP] + ["%s.%s.rvs : ret events" % (SP, c) for c in DIMS]
     + ["%s.%s.set_transformer : self" % (SP, c) for c in DIMS] + ["%s.%s.inverse_transform : ret" % (SP, c) for c in DIMS] + DIMINIT + ["rule:rounded space"],
     mech=[("rvs", "skopt/space/space.py:Dimension.rvs")])

prop("P29", "Dimensions reject ill-formed definitions and infer types",
     "A numeric dimension needs low below high, a known prior and transformation and, for log-uniform ones, a valid base; a tuple or list is read as an integer range, real range with optional prior and base, or categories by documented rules, and everything else is rejected. "
     "A definition is either rejected with an exception or stored exactly as given.",
     ["inputs"], "all dimension definitions", "tests enumerate a list of definitions",
     ["%s.check_dimension : ret raises" % SP]
     + ["%s.%s.__init__ : self raises sig" % (SP, c) for c in DIMS] + ["%s.%s.set_transformer : raises self" % (SP, c) for c in DIMS]
     + ["%s.Space.__init__ : self raises" % SP, "%s.Space.from_yaml : ret raises" % SP, "utils.normalize_dimensions : ret raises",
        "%s.Dimension.name@set : self raises" % SP],
     mech=[("check_dimension", "skopt/space/space.py:check_dimension")])

prop("P30", "Equality, lookup and description of dimensions and spaces",
     "Two dimensions are equal exactly when their class, their bounds (to floating tolerance) or categories, their prior and, for numeric dimensions, their transformation agree, and two spaces when their dimensions agree pairwise and in number. Looking up a dimension by name or position returns that dimension with its position, an unknown name gives no dimension, other kinds of keys are rejected, "
     "and the printed form names the defining values.",
     ["inputs"], "all pairs of dimensions and spaces, all names and positions", "tests compare few pairs",
     ["%s.Space.__eq__ : ret" % SP, "%s.Space.__getitem__ : ret raises" % SP, "%s.Space.__iter__ : ret" % SP, "%s.Space.__repr__ : ret" % SP,
      "%s.Space.dimension_names : ret" % SP, "%s.Dimension.name : ret" % SP, "%s.Dimension.name@set : self raises" % SP]
     + ["%s.%s.%s : ret" % (SP, c, m) for c in DIMS for m in ("__eq__", "__repr__")],
     mech=[("__eq__", "skopt/space/space.py")])

prop("P31", "Space classification and transformer switching",
     "is_real, is_categorical, is_partly_categorical, is_constant and n_constant_dimensions report the dimensions' kinds; set_transformer applies one transformation to all dimensions or one per dimension in order, set_transformer_by_type only to dimensions of the type, "
     "and get_transformer returns the current ones so that setting them again restores the space.",
     ["inputs", "configurations", "histories"], "all spaces and sequences of transformer changes", "tests check few spaces",
     ["%s.Space.%s : ret" % (SP, m) for m in ("is_real", "is_categorical", "is_partly_categorical", "n_constant_dimensions", "get_transformer")]
     + ["%s.Space.%s : * events" % (SP, m) for m in ("set_transformer", "set_transformer_by_type")]
     + ["%s.%s.is_constant : ret" % (SP, c) for c in DIMS] + ["%s.%s.set_transformer : self" % (SP, c) for c in DIMS]
     + ["utils.normalize_dimensions : ret events raises"],
     mech=[("set_transformer", "skopt/space/space.py:Space.set_transformer")])

# ------------------------------------------------------------------ samplers
prop("P32", "Samplers return n points of the space and restore it",
     "Every initial point generator returns exactly n_samples points of the given space as lists of members in original units, using only the given random state, and leaves the transformations of the dimensions as it found them.",
     ["inputs", "configurations", "fault_sequences"], "all generators, settings, spaces, sizes and seeds",
     "tests generate small designs over few spaces",
     ["sampler.%s.generate : ret params events" % c for c in SAMPLERS],
     mech=[("transformer save and restore", "skopt/sampler/*.py")])

prop("P33", "Sampler settings are honoured or rejected",
     "Skips, primes, criteria, iteration counts, lhs types, borders and grid layouts given to a generator are stored and used as documented, generators are found by case insensitive name, and values outside the documented choices raise instead of being ignored.",
     ["configurations", "inputs"], "all settings of all generators", "tests use a few settings",
     ["sampler.%s.__init__ : self raises sig" % c for c in SAMPLERS] + ["sampler.%s.generate : raises self ret" % c for c in SAMPLERS]
     + ["sampler.base.InitialPointGenerator.set_params : self", "sampler.base.InitialPointGenerator.generate : raises",
        "utils.cook_initial_point_generator : ret raises"],
     mech=[("constructor settings", "skopt/sampler/*.py")])

prop("P34", "Quasi-random sequences follow their construction rules",
     "Halton and Hammersly points are radical inverses in distinct prime bases of consecutive indices after the skip, Sobol points come from the gray code recursion with the stored direction numbers and a random shift when randomised, Latin hypercubes have exactly one point per stratum and dimension with the "
     "best design by the criterion, and grids are the tensor product of equally spaced levels.",
     ["inputs", "configurations"], "all sizes, dimensions, seeds and settings", "tests compare a few short sequences",
     ["sampler.%s.generate : ret self" % c for c in SAMPLERS]
     + ["sampler.sobol.Sobol.init : ret self raises"],
     mech=[("sequence construction", "skopt/sampler/*.py")])

# ------------------------------------------------------------------ utils
prop("P35", "Named arguments and point conversions are lossless",
     "point_asdict and point_aslist are inverse to each other with names in sorted order, and a function wrapped by use_named_args receives every coordinate under its dimension's name, each exactly once. Missing, unknown or wrong numbers of coordinates and unnamed "
     "dimensions are rejected.",
     ["inputs"], "all search spaces and points", "tests convert few points",
     ["utils.point_asdict : *", "utils.point_aslist : *", "utils.dimensions_aslist : *", "utils.use_named_args : *",
      "utils.check_dimension_names : ret raises", "utils.check_list_types : ret raises"],
     mech=[("use_named_args", "skopt/utils.py:use_named_args")])

prop("P36", "Stored results load unchanged; dump leaves the result alone",
     "dump writes the result under the given name, without the objective when asked so, and load returns what was stored; dumping never alters the result in memory. The checkpoint callback dumps the current result after every iteration to its path.",
     ["inputs", "configurations"], "all results and joblib options", "tests store few results",
     ["utils.dump : * events own", "utils.load : * events", "callbacks.CheckpointSaver.__call__ : * events", "callbacks.CheckpointSaver.__init__ : *"],
     mech=[("dump", "skopt/utils.py:dump")])

prop("P37", "Expected minimum is a member of the space, read-only",
     "expected_minimum returns a point of the space and the model prediction there, searched from the best observed point and random restarts within the bounds, and the sampling variant the best predicted of n random points and its prediction. Neither changes the result, its space or models; purely numeric spaces are required where a local search is used.",
     ["inputs", "configurations"], "all results, spaces and restart counts", "tests check few one-dimensional results",
     ["utils.expected_minimum : * events", "utils.expected_minimum_random_sampling : * events"],
     mech=[("expected_minimum", "skopt/utils.py:expected_minimum")])

prop("P38", "Stopping rules fire exactly on their documented condition",
     "Each stopping callback decides from the result alone: distance of the last two points below delta, spread of the n best values below delta, total time above the deadline, value below threshold, or too little improvement over the last iterations; before there is enough data "
     "it gives no decision. A stopper never alters the result.",
     ["histories", "inputs"], "all histories and settings", "tests use single hand-made results",
     ["callbacks.%s.__call__ : ret params self" % c for c in STOPPERS] + ["callbacks.%s.__init__ : *" % c for c in STOPPERS] + ["callbacks.DeadlineStopper.__call__ : events"]
     + ["class:callbacks.%s" % c for c in STOPPERS],
     mech=[("criteria", "skopt/callbacks.py")])

prop("P39", "Callbacks see every iteration and can stop the run",
     "Every given callback is called once with the current result after each tell, in the order given, and the run stops after the first iteration in which one returns true; a single callable or list is accepted, other values are rejected, and the user's list is not altered. The bundled timer and "
     "verbose callbacks record every iteration.",
     ["histories", "configurations", "schedules"], "all callback lists and decisions", "tests use one or two callbacks",
     ["callbacks.check_callback : * own", "utils.eval_callbacks : * events", "callbacks.TimerCallback.__call__ : * events", "callbacks.TimerCallback.__init__ : *",
      "callbacks.VerboseCallback.__init__ : *", "callbacks.VerboseCallback.__call__ : *",
      "optimizer.base.base_minimize : events ret", "optimizer.dummy.dummy_minimize : ret events raises", "searchcv.BayesSearchCV._run_search : events self",
      "searchcv.BayesSearchCV.fit : self"]
     + ["class:callbacks.%s" % c for c in ("TimerCallback", "VerboseCallback", "CheckpointSaver")],
     mech=[("eval_callbacks", "skopt/utils.py:eval_callbacks")])

# ------------------------------------------------------------------ search cv
prop("P40", "BayesSearchCV spends its budget and pairs scores correctly",
     "A search evaluates each search space exactly n_iter times in batches of at most n_points, unless a callback stops it; each candidate is told to its own optimizer with the negated mean test score of that candidate, under its parameter's name. total_iterations equals the number of "
     "iterations over all spaces.",
     ["configurations", "histories"], "all search spaces, n_iter, n_points and callbacks", "tests run tiny searches",
     ["searchcv.BayesSearchCV._run_search : events self ret", "searchcv.BayesSearchCV.total_iterations : ret",
      "searchcv.BayesSearchCV.fit : self ret events", "searchcv.BayesSearchCV.optimizer_results_ : ret raises",
      "utils.point_asdict : ret", "utils.dimensions_aslist : ret", "utils.eval_callbacks : ret"],
     mech=[("search loop", "skopt/searchcv.py:BayesSearchCV._run_search")])

prop("P41", "BayesSearchCV validates and never mutates its configuration",
     "Search spaces that are empty, of a wrong type, or with iteration counts that are not positive integers are rejected at construction. Constructor arguments are stored unchanged, and fitting changes neither the search spaces, the caller's dimensions nor "
     "optimizer_kwargs, so that refitting and cloning behave alike.",
     ["configurations", "histories"], "all constructor arguments and fit sequences", "tests fit once",
     ["searchcv.BayesSearchCV.__init__ : self raises events sig", "searchcv.BayesSearchCV.fit : self own",
      "searchcv.BayesSearchCV._run_search : self params own", "%s.check_dimension : raises" % SP],
     mech=[("search space validation", "skopt/searchcv.py:BayesSearchCV._check_search_space")])

# ------------------------------------------------------------------ cross cutting
prop("P42", "Unknown options are rejected, never silently defaulted",
     "Every string option of the public interface (acquisition function and optimiser, base estimator, initial point generator, prior, transformation, strategy, noise, criterion, sample source and minimum of the plots) is accepted exactly for its documented values; any other value raises.",
     ["inputs", "configurations"], "all option values", "tests try a few wrong names",
     ["%s.__init__ : raises" % OPT, "%s.ask : raises" % OPT, "?acquisition._gaussian_acquisition : raises", "acquisition.gaussian_acquisition_1D : raises",
      "acquisition.gaussian_lcb : raises", "utils.cook_estimator : raises", "utils.cook_initial_point_generator : raises",
      "optimizer.base.base_minimize : raises", "optimizer.gp.gp_minimize : raises", "optimizer.forest.forest_minimize : raises", "optimizer.gbrt.gbrt_minimize : raises",
      "optimizer.dummy.dummy_minimize : raises",
      "learning.forest.RandomForestRegressor.predict : raises", "learning.forest.ExtraTreesRegressor.predict : raises",
      "learning.gbrt.GradientBoostingQuantileRegressor.fit : raises", "%s.fit : raises" % GPR, "%s.predict : raises" % GPR]
     + ["%s.%s.%s : raises" % (SP, c, m) for c in DIMS for m in ("__init__", "set_transformer")]
     + ["sampler.%s.generate : raises" % c for c in SAMPLERS]
     + ["plots.plot_objective : raises", "plots.plot_evaluations : raises", "plots.plot_histogram : raises", "plots.plot_objective_2D : raises",
        "callbacks.check_callback : raises"],
     mech=[("option validation", "skopt/optimizer/optimizer.py:Optimizer.__init__")])

prop("P43", "Wrapper functions forward every parameter to the engine",
     "gp_minimize, forest_minimize, gbrt_minimize and base_minimize pass every parameter they accept to the optimizer or the surrogate it belongs to, unchanged and under its own role; the call specification of the result records the arguments given.",
     ["configurations", "inputs"], "all parameters of all minimisers", "tests leave most parameters at their defaults",
     ["optimizer.base.base_minimize : * ~ warn", "optimizer.gp.gp_minimize : *", "optimizer.forest.forest_minimize : *", "optimizer.gbrt.gbrt_minimize : *",
      "optimizer.dummy.dummy_minimize : *", "rule:forward optimizer.base optimizer.gp optimizer.forest optimizer.gbrt optimizer.dummy",
      "%s.__init__ : self sig" % OPT],
     mech=[("base_minimize call", "skopt/optimizer/gp.py:gp_minimize")])

prop("P44", "Partial dependence averages the model over samples",
     "partial_dependence returns, on an evenly spaced grid of original values of the chosen one or two dimensions, the mean model prediction over all given samples with only the chosen coordinates replaced. The samples, space and model are not changed.",
     ["inputs", "configurations"], "all spaces, dimensions, samples and grids", "tests check shapes for few spaces",
     ["plots.partial_dependence : ret params raises", "plots.partial_dependence_1D : ret params raises", "plots.partial_dependence_2D : ret params raises",
      "?plots._evenly_sample : ret"],
     mech=[("partial dependence", "skopt/plots.py:partial_dependence_1D")])

prop("P45", "Plots draw the result's own data and leave it unchanged",
     "The plotting functions draw exactly the evaluated points, values and best point of the given results and the requested dimensions, and change neither the results, their spaces nor models. Convergence curves are the running minimum of the values and regret curves the accumulated excess over the true or best minimum.",
     ["inputs", "configurations"], "all results and plot settings", "tests only check that plots can be drawn",
     ["plots.plot_convergence : *", "plots.plot_regret : *", "plots.plot_evaluations : *", "plots.plot_objective : *", "plots.plot_gaussian_process : *",
      "plots.plot_histogram : *", "plots.plot_objective_2D : *", "?plots._map_categories : ret params", "?plots._evaluate_min_params : ret raises params"],
     mech=[("plots", "skopt/plots.py")])

prop("P46", "Every name is resolved and every internal call binds",
     "No path through the library refers to a name that does not exist at that point or calls an internal function with arguments it does not accept: every function either completes or raises a documented exception, never a NameError or a TypeError of its own making.",
     ["inputs", "programs"], "all functions and all paths through them", "tests do not execute every path; error and rarely used branches stay unseen",
     ["rule:names acquisition benchmarks callbacks learning optimizer plots sampler searchcv space utils",
      "rule:calls acquisition benchmarks callbacks learning optimizer plots sampler searchcv space utils"],
     mech=[("modules", "skopt")])

prop("P47", "The benchmark functions are the published ones",
     "bench1 to bench5, branin and hart6 compute their published formulas with the published constants, so that the documented minima are attained at the documented points; the timed variant returns the value and its cost.",
     ["inputs"], "all points", "tests check the values at the minima",
     ["benchmarks.%s : ret sig raises" % n for n in ("bench1", "bench1_with_time", "bench2", "bench3", "bench4", "bench5", "branin", "hart6")],
     mech=[("benchmarks", "skopt/benchmarks.py")])

prop("P48", "The public interface keeps its signatures, defaults and exports",
     "Every documented public function and class can be imported from its documented place, accepts its documented parameters by name and position, and uses its documented default values.",
     ["programs", "configurations"], "all public functions and classes", "tests pass many parameters explicitly",
     ["exports:skopt", "exports:skopt.acquisition", "exports:skopt.callbacks", "exports:skopt.learning", "exports:skopt.optimizer", "exports:skopt.plots",
      "exports:skopt.sampler", "exports:skopt.space", "exports:skopt.utils", "exports:skopt.learning.gaussian_process", "exports:skopt.benchmarks",
      "signatures:*"],
     mech=[("package exports", "skopt/__init__.py")])

NA = [
    ("Q01", "Optimisation converges: regret shrinks with the budget",
     "With enough evaluations the best value found approaches the minimum of the objective.", ["inputs", "histories"],
     "all objectives and budgets", "tests bound the regret on a few benchmark functions",
     "quantifies over runtime values of arbitrary objectives and stochastic surrogates; no property of the program's shape bounds the regret"),
    ("Q02", "Surrogate predictions are accurate and calibrated",
     "Predicted means and standard deviations match held-out data.", ["inputs"], "all data sets",
     "tests fit a few data sets", "a statistical property of numerical fits; the structural part (formulas, units, gradients) is claimed under P17 to P21"),
    ("Q03", "Initial designs have low discrepancy",
     "Quasi-random designs cover the space more evenly than random ones.", ["inputs"], "all sizes and dimensions",
     "tests look at few designs", "a numerical quality measure of the generated points; the construction rules are claimed under P34"),
    ("Q04", "Deadlines are met in wall-clock time",
     "A run with a deadline ends before the deadline plus one evaluation.", ["schedules"], "all objective run times",
     "tests use one short deadline", "depends on the run time of user code and the clock; the decision rule is claimed under P38"),
    ("Q05", "Any result can be pickled and loaded in another process",
     "dump and load work for every objective and estimator.", ["inputs", "programs"], "all objectives and environments",
     "tests store few results", "picklability of user supplied objects and version compatibility are outside the source of the library; the calls made are claimed under P36"),
    ("Q06", "Parallel execution gives the same suggestions as serial execution",
     "Results do not depend on n_jobs.", ["schedules", "configurations"], "all n_jobs and schedules",
     "tests run few parallel configurations", "depends on joblib scheduling and floating point reduction order inside third-party libraries"),
    ("Q07", "Numerical code never overflows or produces NaN on finite input",
     "Acquisition, kernel and transformer computations return finite numbers for finite inputs.", ["inputs"], "all finite inputs",
     "tests use moderate values", "floating-point ranges of model outputs are unbounded in the source; no sound static range argument is in reach"),
]
