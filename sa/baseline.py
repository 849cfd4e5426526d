"""Public package functions of the pinned tree.  They stay single nodes in a
caller's value graph (each has its own obligations); every other package
function, in particular any helper introduced later, is looked into."""
PUBLIC_OPAQUE = set("""
skopt.acquisition._gaussian_acquisition
skopt.acquisition.gaussian_acquisition_1D
skopt.acquisition.gaussian_ei
skopt.acquisition.gaussian_lcb
skopt.acquisition.gaussian_pi
skopt.benchmarks.bench1
skopt.benchmarks.bench1_with_time
skopt.benchmarks.bench2
skopt.benchmarks.bench3
skopt.benchmarks.bench4
skopt.benchmarks.bench5
skopt.benchmarks.branin
skopt.benchmarks.hart6
skopt.callbacks.CheckpointSaver.__call__
skopt.callbacks.EarlyStopper.__call__
skopt.callbacks.TimerCallback.__call__
skopt.callbacks.VerboseCallback.__call__
skopt.callbacks.check_callback
skopt.learning.forest.ExtraTreesRegressor.predict
skopt.learning.forest.RandomForestRegressor.predict
skopt.learning.forest._return_std
skopt.learning.gaussian_process.gpr.GaussianProcessRegressor.fit
skopt.learning.gaussian_process.gpr.GaussianProcessRegressor.predict
skopt.learning.gaussian_process.kernels.ConstantKernel.gradient_x
skopt.learning.gaussian_process.kernels.DotProduct.gradient_x
skopt.learning.gaussian_process.kernels.ExpSineSquared.gradient_x
skopt.learning.gaussian_process.kernels.Exponentiation.gradient_x
skopt.learning.gaussian_process.kernels.HammingKernel.__call__
skopt.learning.gaussian_process.kernels.Kernel.__add__
skopt.learning.gaussian_process.kernels.Kernel.__mul__
skopt.learning.gaussian_process.kernels.Kernel.__pow__
skopt.learning.gaussian_process.kernels.Kernel.__radd__
skopt.learning.gaussian_process.kernels.Kernel.__rmul__
skopt.learning.gaussian_process.kernels.Kernel.gradient_x
skopt.learning.gaussian_process.kernels.Matern.gradient_x
skopt.learning.gaussian_process.kernels.Product.gradient_x
skopt.learning.gaussian_process.kernels.RBF.gradient_x
skopt.learning.gaussian_process.kernels.RationalQuadratic.gradient_x
skopt.learning.gaussian_process.kernels.Sum.gradient_x
skopt.learning.gaussian_process.kernels.WhiteKernel.gradient_x
skopt.learning.gbrt.GradientBoostingQuantileRegressor.fit
skopt.learning.gbrt.GradientBoostingQuantileRegressor.predict
skopt.optimizer.base.base_minimize
skopt.optimizer.dummy.dummy_minimize
skopt.optimizer.forest.forest_minimize
skopt.optimizer.gbrt.gbrt_minimize
skopt.optimizer.gp.gp_minimize
skopt.optimizer.optimizer.Optimizer.ask
skopt.optimizer.optimizer.Optimizer.copy
skopt.optimizer.optimizer.Optimizer.get_result
skopt.optimizer.optimizer.Optimizer.run
skopt.optimizer.optimizer.Optimizer.tell
skopt.optimizer.optimizer.Optimizer.update_next
skopt.plots.partial_dependence
skopt.plots.partial_dependence_1D
skopt.plots.partial_dependence_2D
skopt.plots.plot_convergence
skopt.plots.plot_evaluations
skopt.plots.plot_gaussian_process
skopt.plots.plot_histogram
skopt.plots.plot_objective
skopt.plots.plot_objective_2D
skopt.plots.plot_regret
skopt.sampler.base.InitialPointGenerator.generate
skopt.sampler.base.InitialPointGenerator.set_params
skopt.sampler.grid.Grid.generate
skopt.sampler.halton.Halton.generate
skopt.sampler.hammersly.Hammersly.generate
skopt.sampler.lhs.Lhs.generate
skopt.sampler.sobol.Sobol.generate
skopt.sampler.sobol.Sobol.init
skopt.searchcv.BayesSearchCV.fit
skopt.space.space.Categorical.__contains__
skopt.space.space.Categorical.__eq__
skopt.space.space.Categorical.__repr__
skopt.space.space.Categorical.distance
skopt.space.space.Categorical.inverse_transform
skopt.space.space.Categorical.rvs
skopt.space.space.Categorical.set_transformer
skopt.space.space.Dimension.inverse_transform
skopt.space.space.Dimension.rvs
skopt.space.space.Dimension.set_transformer
skopt.space.space.Dimension.transform
skopt.space.space.Integer.__contains__
skopt.space.space.Integer.__eq__
skopt.space.space.Integer.__repr__
skopt.space.space.Integer.distance
skopt.space.space.Integer.inverse_transform
skopt.space.space.Integer.set_transformer
skopt.space.space.Real.__contains__
skopt.space.space.Real.__eq__
skopt.space.space.Real.__repr__
skopt.space.space.Real.distance
skopt.space.space.Real.inverse_transform
skopt.space.space.Real.set_transformer
skopt.space.space.Space.__contains__
skopt.space.space.Space.__eq__
skopt.space.space.Space.__getitem__
skopt.space.space.Space.__iter__
skopt.space.space.Space.__repr__
skopt.space.space.Space.distance
skopt.space.space.Space.from_yaml
skopt.space.space.Space.get_transformer
skopt.space.space.Space.inverse_transform
skopt.space.space.Space.rvs
skopt.space.space.Space.set_transformer
skopt.space.space.Space.set_transformer_by_type
skopt.space.space.Space.transform
skopt.space.space.check_dimension
skopt.space.transformers.CategoricalEncoder.fit
skopt.space.transformers.CategoricalEncoder.inverse_transform
skopt.space.transformers.CategoricalEncoder.transform
skopt.space.transformers.Identity.inverse_transform
skopt.space.transformers.Identity.transform
skopt.space.transformers.LabelEncoder.fit
skopt.space.transformers.LabelEncoder.inverse_transform
skopt.space.transformers.LabelEncoder.transform
skopt.space.transformers.LogN.inverse_transform
skopt.space.transformers.LogN.transform
skopt.space.transformers.Normalize.inverse_transform
skopt.space.transformers.Normalize.transform
skopt.space.transformers.Pipeline.fit
skopt.space.transformers.Pipeline.inverse_transform
skopt.space.transformers.Pipeline.transform
skopt.space.transformers.StringEncoder.fit
skopt.space.transformers.StringEncoder.inverse_transform
skopt.space.transformers.StringEncoder.transform
skopt.space.transformers.Transformer.fit
skopt.space.transformers.Transformer.inverse_transform
skopt.space.transformers.Transformer.transform
skopt.utils.check_dimension_names
skopt.utils.check_list_types
skopt.utils.check_x_in_space
skopt.utils.cook_estimator
skopt.utils.cook_initial_point_generator
skopt.utils.create_result
skopt.utils.dimensions_aslist
skopt.utils.dump
skopt.utils.eval_callbacks
skopt.utils.expected_minimum
skopt.utils.expected_minimum_random_sampling
skopt.utils.has_gradients
skopt.utils.is_2Dlistlike
skopt.utils.is_listlike
skopt.utils.load
skopt.utils.normalize_dimensions
skopt.utils.point_asdict
skopt.utils.point_aslist
skopt.utils.use_named_args
""".split())

# of these, the ones without effects on their arguments or the outside
PURE_INTERNAL = set("""
skopt.acquisition._gaussian_acquisition
skopt.acquisition.gaussian_acquisition_1D
skopt.acquisition.gaussian_ei
skopt.acquisition.gaussian_lcb
skopt.acquisition.gaussian_pi
skopt.callbacks.check_callback
skopt.learning.forest._return_std
skopt.plots.partial_dependence
skopt.plots.partial_dependence_1D
skopt.plots.partial_dependence_2D
skopt.space.space.check_dimension
skopt.utils.check_dimension_names
skopt.utils.check_list_types
skopt.utils.cook_estimator
skopt.utils.cook_initial_point_generator
skopt.utils.create_result
skopt.utils.dimensions_aslist
skopt.utils.has_gradients
skopt.utils.is_2Dlistlike
skopt.utils.is_listlike
skopt.utils.normalize_dimensions
skopt.utils.point_asdict
skopt.utils.point_aslist
skopt.utils.use_named_args
""".split())
