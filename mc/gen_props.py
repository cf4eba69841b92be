"""Generates /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

S = "src/MuyGPyS/"
p("C01", "Neighborhood tensors are exactly the differences they are defined to be",
  "For every feature matrix, index vector and neighbor-index array, the crosswise and pairwise tensors equal query-minus-neighbor and neighbor-i-minus-neighbor-j elementwise (reduced by the metric for isotropic deformations), and the target tensors equal the rows of the target array the indices select, in the order given. This holds for repeated indices, self indices, unsorted indices, one-dimensional features, any memory layout or input dtype, and every batch, neighbor, feature and response count.",
  ["inputs"], "all index patterns over small grids, all shape combinations up to a bound, all input layouts/dtypes of a fixed alphabet",
  "Tests check shapes and a few hand-picked tensors with distinct random float data; duplicate indices, degenerate shapes and alternative layouts are not exercised.",
  [S+"_src/gp/tensors/numpy.py", S+"gp/deformation/metric.py", S+"gp/deformation/isotropy.py", S+"gp/deformation/anisotropy.py", S+"gp/muygps.py", S+"gp/tensors.py"],
  [("difference tensors", S+"_src/gp/tensors/numpy.py"), ("metric reduction", S+"gp/deformation/metric.py"), ("train/predict tensor makers", S+"gp/muygps.py")],
  ["MuyGPS.make_train_tensors/make_predict_tensors", "DeformationFn.crosswise_tensor/pairwise_tensor", "gp.tensors.*"])
p("C02", "Kernels evaluate their closed forms for every parameter and distance",
  "An RBF or Matern kernel applied to a difference or distance tensor returns, elementwise, the textbook covariance of the deformed distance for the smoothness and length scale(s) currently in force, whether a parameter is fixed, free, set afterwards or overridden by keyword in the call. In particular the value at distance zero is the prior variance 1, the result is symmetric in the two points, specialised and general smoothness code agree, and an anisotropic deformation applies its i-th length scale to the i-th feature whichever subset of the scales is free or overridden and in whatever order they are passed.",
  ["inputs", "configurations"], "all combinations of metric, deformation, smoothness (fixed/free), length scale(s), override subset and order, tensor rank, over a grid of distances including zero and very large",
  "Tests compare a handful of smoothness values on random data with default parameters; they never mix fixed and free anisotropic scales or override keyword order.",
  [S+"gp/kernels/matern.py", S+"gp/kernels/rbf.py", S+"_src/gp/kernels/numpy.py", S+"gp/deformation/anisotropy.py", S+"gp/hyperparameter/vector.py"],
  [("kernel dispatch on smoothness", S+"gp/kernels/matern.py"), ("length-scale embedding", S+"gp/hyperparameter/scalar.py, vector.py")],
  ["KernelFn.__call__", "KernelFn.get_opt_fn", "KernelFn.Kout"])
p("C03", "Posterior mean and variance solve each query's own local kriging equations",
  "For every batch, the posterior mean and variance of each query equal Kcross (Kin + noise)^-1 y and scale * (Kout - Kcross (Kin + noise)^-1 Kcross^T) computed from that query's own neighborhood alone, so results do not depend on batch size, batch order, companion queries, the order in which neighbors are listed, or which other responses are predicted alongside. The variance is never above scale * Kout, and prediction with zero noise reproduces the target of a neighbor that coincides with the query.",
  ["inputs", "configurations"], "all shapes in a grid (including coinciding batch/neighbor/response counts), all neighbor permutations and batch sub-selections at small sizes, all noise and scale settings of an alphabet",
  "Tests check output shapes and compare to one formula at a few sizes; response count equal to neighbor count, permutations and batch independence are never explored.",
  [S+"_src/gp/muygps/numpy.py", S+"gp/muygps.py", S+"gp/mean.py", S+"gp/variance.py"],
  [("local solve", S+"_src/gp/muygps/numpy.py"), ("noise perturbation composition", S+"gp/mean.py, gp/variance.py"), ("scale composition", S+"gp/hyperparameter/scale.py")],
  ["MuyGPS.posterior_mean", "MuyGPS.posterior_variance"])
p("C04", "A model's predictions depend only on its current parameters, not its history",
  "After any sequence of setting kernel parameters, training the scale, optimizing, copying, predicting and evaluating the kernel on one or several live models, each model's kernel, noise, scale, posterior mean, posterior variance and reported parameters equal those of a model freshly constructed with the same parameter values. Operations on one model never change another model, including models built from default arguments or from the same scalar parameter specifications.",
  ["histories"], "all operation sequences up to a depth over several live models",
  "Each test builds one model, uses it once and discards it; sequences and sharing between live models are never explored.",
  [S+"gp/muygps.py", S+"gp/kernels/kernel_fn.py", S+"gp/kernels/matern.py", S+"gp/hyperparameter/scalar.py", S+"gp/hyperparameter/scale.py", S+"_src/optimize/chassis/numpy.py"],
  [("closure rebuilding on parameter change", S+"gp/muygps.py"), ("parameter copy on construction", S+"gp/hyperparameter/scalar.py")],
  ["MuyGPS public methods", "KernelFn.set_params"],
  state=[("hyperparameters", "current values/bounds", S+"gp/kernels/kernel_fn.py"), ("scale value", "variance scale", S+"gp/hyperparameter/scale.py"), ("composed functions", "closures capturing noise/scale/Kout", S+"gp/muygps.py")])
p("C05", "Hyperparameters hold exactly the legal values and bounds they are given",
  "Constructing or setting a scalar, vector, tensor, noise or scale hyperparameter either stores exactly the value and bounds given (values sampled on request lie within the bounds for every answer of the random source, uniformly in linear or log space as requested) or raises a ValueError; illegal combinations (value outside free bounds or not a number, inverted, mis-sized or non-numeric bounds, non-scalar values, negative noise bounds or heteroscedastic values, non-positive scale, sampling when fixed, on a log scale from zero or below, unknown string prompts) always raise and legal ones never do. The fixed flag, bounds, names and the lists handed to optimizers agree with what was given.",
  ["inputs", "configurations"], "the full product of value and bound alphabets, every random answer of a grid",
  "Tests sample a handful of legal and illegal values with one seeded random source.",
  [S+"gp/hyperparameter/scalar.py", S+"gp/hyperparameter/vector.py", S+"gp/hyperparameter/tensor.py", S+"gp/hyperparameter/scale.py", S+"gp/noise/homoscedastic.py", S+"gp/noise/heteroscedastic.py"],
  [("validation", S+"gp/hyperparameter/scalar.py"), ("sampling", S+"gp/hyperparameter/scalar.py")],
  ["ScalarParam/VectorParam/TensorParam/ScaleFn/NoiseFn constructors and accessors", "MuyGPS.get_opt_params/fixed"])
p("C06", "Whatever the optimizer answers, the optimized model is legal and well mapped",
  "For every answer of the underlying optimizer, the returned model carries each free parameter's own returned value clipped to that parameter's bounds, with every fixed parameter, all bounds, the scale and the model given as input left unchanged; its predictions use those values. The optimizer is started from the model's current values with the model's bounds, minimizes the negated objective (or maximizes the objective), and user options reach it unchanged.",
  ["fault_sequences", "configurations"], "all optimizer answers on a grid (inside, at, and beyond bounds) for every subset of free parameters in every model family",
  "Tests run the real optimizer with one seed and check the result is near the truth; they cannot show the mapping and clipping hold for every optimizer answer or every free/fixed subset.",
  [S+"_src/optimize/chassis/numpy.py", S+"optimize/chassis.py", S+"optimize/experimental/chassis.py"],
  [("new model construction", S+"_src/optimize/chassis/numpy.py"), ("name/value lists", S+"gp/kernels/*.py, gp/hyperparameter/*.py")],
  ["Bayes_optimize", "L_BFGS_B_optimize"])
p("C07", "The training objective at any point is the loss of the model rebuilt there",
  "For every loss function, scale method, noise model and kernel, evaluating the objective function at a parameter assignment (given by keyword, in any order, any number of times and in any sequence) equals minus the loss of the leave-one-out predictions of a model rebuilt with those parameter values, including the scale that model would train on the same neighborhoods. Masked targets restrict the loss to the selected outputs.",
  ["inputs", "histories", "configurations"], "all loss x scale x noise x kernel x free-subset combinations, all parameter points of a grid, all evaluation orders of length up to a bound",
  "Tests compare the objective at one starting point for a couple of losses and never after a parameter differs from the model's stored one.",
  [S+"optimize/objective.py", S+"optimize/loss.py", S+"gp/hyperparameter/scale.py", S+"gp/mean.py", S+"gp/variance.py"],
  [("objective composition", S+"optimize/objective.py"), ("predict-and-loss composition", S+"optimize/loss.py")],
  ["OptimizeFn.make_obj_fn"])
p("C08", "Loss functions equal their published formulas",
  "Mean squared error, cross entropy, leave-one-out likelihood (scaled and unscaled, univariate and with per-point covariance matrices), pseudo-Huber and leave-one-out pseudo-Huber return the documented formula for every prediction, target, variance, scale and boundary parameter of matching shape. They are additive over batch elements (averaged for mean squared error), independent of batch order, and finite for finite inputs with positive variance.",
  ["inputs"], "full products of small value alphabets per element, all shapes up to a bound",
  "Tests compare against one formula on one random tensor; multivariate variants are unchecked.",
  [S+"_src/optimize/loss/numpy.py", S+"optimize/loss.py"],
  [("loss implementations", S+"_src/optimize/loss/numpy.py")],
  ["mse_fn, cross_entropy_fn, lool_fn, lool_fn_unscaled, pseudo_huber_fn, looph_fn"])
p("C09", "Variance scale estimates equal their estimator and end up in the model",
  "Training the scale sets the model's scale to the fixed value, to the mean over the batch of y^T (Kin + noise)^-1 y / nn_count (with its fixed-point iterations), or, for down-sampling, to the median over iterations of that estimator on the sub-neighborhoods actually drawn, for every batch, neighbor count and answer of the random source. The posterior variance is scaled by exactly that value immediately afterwards, and training it again gives the same answer.",
  ["inputs", "configurations"], "all shapes in a grid, every subset the random source can draw, all iteration counts up to a bound, sequences of repeated training",
  "Tests check one batch size and one random seed against a statistical tolerance.",
  [S+"gp/hyperparameter/scale.py", S+"_src/optimize/scale/numpy.py", S+"gp/muygps.py"],
  [("estimators", S+"_src/optimize/scale/numpy.py"), ("scale closure", S+"gp/hyperparameter/scale.py")],
  ["MuyGPS.optimize_scale", "MuyGPS.scale", "MuyGPS.posterior_variance"])
p("C10", "Neighbor queries return the true nearest neighbors and never the point itself",
  "For every training set, metric and query, the exact neighbor index returns for each query nn_count distinct in-range training points in non-decreasing distance whose distances are the smallest available, with distances that belong to the returned points (squared Euclidean by default), and batch queries exclude precisely the queried training point itself even when other training points coincide with it. Results do not depend on how queries are batched, on previous queries, or on the underlying search algorithm chosen, and the approximate index obeys the same contract on sets it searches exhaustively.",
  ["inputs", "configurations"], "all training multisets on a small grid, all queries, all algorithms and neighbor counts",
  "Tests check only the shapes of the outputs.",
  [S+"neighbors.py"], [("NN_Wrapper", S+"neighbors.py")], ["NN_Wrapper.get_nns", "NN_Wrapper.get_batch_nns"])
p("C11", "Batch samplers return valid, distinct, balanced batches for every random draw",
  "For every label set, batch count and answer of the random source, sampled batches contain distinct in-range training indices, of the requested size when the data allow (the whole training set otherwise), paired row by row with their own nearest neighbors. Balanced batches contain only points whose neighborhoods mix labels, at most batch_count / class_count per class and as many as the class offers up to that; full filtered batches contain all such points.",
  ["inputs", "fault_sequences"], "all label assignments of small training sets, all batch counts, every answer of the random source",
  "Tests use one seed and check counts on one large set.",
  [S+"optimize/batch.py"], [("samplers", S+"optimize/batch.py")], ["sample_batch", "get_balanced_batch", "full_filtered_batch", "sample_balanced_batch"])
p("C12", "Fast prediction equals the posterior mean of the nearest point's neighborhood",
  "For every training set, model and query, the fast posterior mean computed from precomputed coefficients equals the ordinary posterior mean of the query conditioned on the neighborhood made of its nearest training point followed by that point's nearest neighbors, for one or many queries, responses and neighbors. The coefficients of each training point equal the solution of that point's own noisy kernel system.",
  ["inputs", "configurations"], "all shapes in a grid including one query, one response and one neighbor; all noise models and kernels",
  "Tests compare the fast mean loosely to the regular one on one data set; degenerate shapes are untested and the workflow function is not run.",
  [S+"gp/fast_precompute.py", S+"gp/fast_mean.py", S+"gp/tensors.py", S+"_src/gp/muygps/numpy.py", S+"examples/fast_posterior_mean.py"],
  [("precompute", S+"_src/gp/muygps/numpy.py"), ("neighborhood update", S+"_src/gp/tensors/numpy.py")],
  ["MuyGPS.fast_coefficients", "MuyGPS.fast_posterior_mean", "fast_nn_update", "make_fast_predict_tensors", "fast_posterior_mean_any", "do_fast_posterior_mean"])
p("C13", "A multivariate model behaves as independent univariate models",
  "For every list of per-response models, every multivariate operation (posterior mean and variance, scale training, fast coefficients and fast mean, fixedness, training and prediction tensors) returns, response by response, exactly what the corresponding independent univariate model would return, in any sequence of operations and without influence between responses.",
  ["histories", "configurations", "inputs"], "all operation sequences up to a depth, all response counts and model mixes of an alphabet",
  "Tests check shapes and broad error bounds; the variance and fast paths are never compared with the univariate model.",
  [S+"gp/multivariate_muygps.py"], [("per-response loops", S+"gp/multivariate_muygps.py")], ["MultivariateMuyGPS public methods"])
p("C14", "Distributed computation equals the serial one for every rank count and schedule",
  "Under MPI, for every number of ranks, batch size (including batches smaller than the number of ranks) and message schedule, the pieces of every distributed tensor concatenated in rank order equal the serial tensor, every rank obtains the same loss, scale and objective value as the serial computation, and no schedule deadlocks or leaves messages unreceived.",
  ["schedules", "configurations", "inputs"], "all interleavings of the ranks' communication, 1-4 ranks, all batch sizes up to a bound, all distributed functions",
  "Tests run one schedule on a fixed number of ranks with one large evenly divisible batch.",
  [S+"_src/mpi_utils.py", S+"_src/gp/tensors/mpi.py", S+"_src/optimize/loss/mpi.py", S+"_src/optimize/scale/mpi.py"],
  [("chunking and scatter", S+"_src/mpi_utils.py"), ("reductions", S+"_src/optimize/loss/mpi.py, scale/mpi.py")],
  ["make_train_tensors/make_predict_tensors", "loss functions", "optimize_scale", "objective"],
  state=[("per-rank chunk", "slice of the batch owned by a rank", S+"_src/mpi_utils.py")])
p("C15", "All MPI ranks hold the same model after training",
  "Under MPI, after hyperparameters are sampled, optimized by any supported optimizer and the scale is trained by any supported method, every rank holds identical parameter values for every number of ranks, message schedule and state of the ranks' random sources, and the ranks perform the same sequence of collective operations.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of rank communication, 1-3 ranks, differing per-rank random streams",
  "Tests seed every rank identically, which hides any unsynchronized randomness, and run one schedule.",
  [S+"gp/hyperparameter/scalar.py", S+"_src/optimize/chassis/mpi.py", S+"_src/optimize/chassis/numpy.py", S+"gp/hyperparameter/scale.py"],
  [("broadcast of sampled values", S+"gp/hyperparameter/scalar.py"), ("global objective via allreduce", S+"_src/optimize/loss/mpi.py")],
  ["ScalarParam('sample')", "Bayes_optimize", "L_BFGS_B_optimize", "optimize_scale"])
p("C16", "The torch backend computes what the numpy backend computes",
  "For every supported operation (tensors, kernels, noise, posterior mean and variance, fast prediction, losses, scale training, objectives, multivariate models) the torch backend returns the same values as the documented definition the numpy backend implements, for the same inputs and shapes, or raises where documented as unsupported.",
  ["inputs", "configurations"], "the shape, parameter and layout grids of the corresponding numpy properties re-run under torch",
  "Backend tests compare the two backends at one shape with one random data set.",
  [S+"_src/gp/tensors/torch.py", S+"_src/gp/muygps/torch.py", S+"_src/gp/kernels/torch.py", S+"_src/gp/noise/torch.py", S+"_src/optimize/loss/torch.py", S+"_src/optimize/scale/torch.py", S+"_src/math/torch.py"],
  [("torch implementations", S+"_src/**/torch.py")], ["same public API with MUYGPYS_BACKEND=torch"])
p("C17", "Torch layers predict and differentiate as the model's current parameters dictate",
  "A MuyGPs layer's forward pass returns the posterior mean and variance of its model on its stored neighborhoods for the current embedding and the current trainable parameters, in every sequence of forward passes, parameter updates and optimizer steps, and its gradients match finite differences of that forward pass. Refreshing the neighborhoods makes subsequent passes use them.",
  ["histories", "inputs"], "all sequences of forward/update/refresh operations up to a depth over small models",
  "Tests train one network and check an error threshold.",
  [S+"torch/muygps_layer.py", S+"torch/multivariate_muygps_layer.py", S+"examples/muygps_torch.py"],
  [("forward rebuilding closures", S+"torch/muygps_layer.py")], ["MuyGPs_layer.forward", "MultivariateMuyGPs_layer.forward", "predict_model", "update_nearest_neighbors"])
p("C18", "Regression workflows are exactly the composition of their documented steps",
  "For every data set, model specification, optimizer answer and random draw, the one-call regression workflows return the model, neighbor index, means and variances that the documented manual sequence (index, sample, tensors, optimize, train scale, query, predict) produces, each returned row belongs to the test point of the same index, no target other than those of a query's neighbors influences its prediction once the model is fixed, and fully fixed models skip training.",
  ["inputs", "configurations", "histories"], "all workflow option combinations of an alphabet, all small data sets of a grid, repeated calls",
  "The API tests need data files absent from the repository and are not run; nothing else covers these functions.",
  [S+"examples/regress.py", S+"examples/from_indices.py"], [("workflow composition", S+"examples/regress.py")],
  ["do_regress", "make_regressor", "make_multivariate_regressor", "regress_any", "*_from_indices"])
p("C19", "Classification and two-class UQ workflows classify every point consistently",
  "For every labelled data set, the classification workflows return for each test point either its neighbors' common one-hot label when all of them agree, or the posterior mean on its neighborhood otherwise, in the order of the test points, for any number of classes. The two-class uncertainty workflow additionally returns the posterior variance on non-unanimous points and zero on unanimous ones, cutoffs that optimize the given objectives over the documented grid, masks that mark exactly the points whose confidence interval contains the midpoint, and accuracy summaries that equal a direct count.",
  ["inputs", "configurations"], "all label assignments of small training sets for 2-4 classes, all mask patterns, all cutoff choices",
  "The API tests need data files and are not run; nothing else covers these functions.",
  [S+"examples/classify.py", S+"examples/two_class_classify_uq.py"], [("unanimity shortcut", S+"examples/classify.py"), ("interval masks", S+"examples/two_class_classify_uq.py")],
  ["classify_any", "do_classify", "classify_two_class_uq", "train_two_class_interval", "make_masks", "do_uq", "do_classify_uq"])
p("C20", "Noise models add exactly their prior to each neighborhood's own kernel diagonal",
  "Perturbing a kernel tensor with homoscedastic, heteroscedastic, null or shear noise returns the tensor plus exactly the configured variance on each neighborhood's diagonal (the entry belonging to that neighborhood and neighbor for heteroscedastic values) and leaves every off-diagonal entry and the input tensor unchanged. Every prediction, variance, coefficient and scale computation of a model applies its noise exactly once.",
  ["inputs", "configurations"], "all shapes in a grid, all noise values of an alphabet, coinciding batch/neighbor counts, every consumer of the noise",
  "Tests check homoscedastic noise on one shape and heteroscedastic noise against a constant tensor.",
  [S+"_src/gp/noise/numpy.py", S+"gp/noise/homoscedastic.py", S+"gp/noise/heteroscedastic.py", S+"gp/noise/null.py", S+"gp/noise/shear.py"],
  [("perturbation", S+"_src/gp/noise/numpy.py")], ["NoiseFn.perturb", "NoiseFn.perturb_fn", "MuyGPS methods"])
p("C21", "Hierarchical length scales interpolate their knots for each query",
  "With a hierarchical length scale, each query's kernel uses the length scale obtained by kriging the current knot values at that query's own features with the higher-level kernel and noise, whether the knots are fixed, free or overridden by keyword, for every batch size and number of knots; at zero higher-level noise a query on a knot gets that knot's value.",
  ["inputs", "configurations"], "all knot counts, batch sizes, override subsets and orders of a small grid",
  "Tests check one batch and one knot layout, mostly for shapes.",
  [S+"gp/hyperparameter/experimental/hierarchical.py", S+"gp/deformation/isotropy.py"],
  [("knot interpolation", S+"gp/hyperparameter/experimental/hierarchical.py")], ["HierarchicalParam", "kernel call with batch_features", "objective with batch_features"])
p("C22", "Shear kernels are the second derivatives of the RBF and stay block consistent",
  "Every entry of the three-by-three shear kernel (and of the two-in three-out variants) equals the corresponding combination of fourth derivatives of the squared exponential kernel in the two displacement coordinates at the current length scale, the full kernel matrix is symmetric, and the mean and variance predicted with it equal the block kriging equations for every batch and neighbor count.",
  ["inputs", "configurations"], "all displacement pairs on a grid, all batch/neighbor counts in a grid including coincidences with 2 and 3, all length scales of an alphabet",
  "Tests compare with one reference implementation on one random data set.",
  [S+"_src/gp/kernels/shear/numpy.py", S+"gp/kernels/experimental/shear.py"],
  [("shear kernel tensors", S+"_src/gp/kernels/shear/numpy.py")], ["ShearKernel.__call__", "ShearKernel2in3out.__call__", "MuyGPS.posterior_mean/variance"])
p("C23", "No public operation modifies the arrays it is given",
  "Every public operation leaves each array argument bitwise unchanged and returns results that later operations do not alter, and repeating any operation with the same arguments gives the same answer, while an array whose contents the caller has rewritten is read afresh. This includes building tensors, evaluating kernels, noise, predictions, losses, objectives, neighbor queries, samplers and workflows.",
  ["inputs", "histories"], "every public operation on every argument layout of an alphabet, every ordered pair of operations",
  "Tests never compare inputs before and after a call or repeat calls.",
  [S+"_src/gp/kernels/numpy.py", S+"_src/gp/noise/numpy.py", S+"_src/gp/tensors/numpy.py", S+"gp/muygps.py"],
  [("fresh output allocation", S+"_src/gp/**")], ["all public operations"])
p("C24", "Leave-one-out training never sees the held-out target",
  "During training each batch point's prediction, variance and scale contribution depends on its neighbors' targets and never on its own target, for every training set including ones with coinciding points and every batch. Changing one training target changes only the objective terms of points that hold it out or list it as a neighbor.",
  ["inputs"], "all small grid training sets, every single-target perturbation",
  "Tests never perturb a target and look at what changes.",
  [S+"neighbors.py", S+"gp/muygps.py", S+"optimize/objective.py"], [("self-exclusion in batch neighbors", S+"neighbors.py")],
  ["NN_Wrapper.get_batch_nns", "MuyGPS.make_train_tensors", "objective"])
p("C25", "Floating point precision follows configuration throughout",
  "With 32-bit or 64-bit precision configured, arrays created by the library have the configured type, results agree with the definition to that precision, integer index arrays stay 64-bit, and backend and precision selection by environment or flag takes effect or raises, never silently selecting something else.",
  ["configurations"], "all combinations of backend and precision settings and ways of setting them",
  "Each test process runs with one backend and one precision.",
  [S+"_src/config.py", S+"_src/math/meta.py", S+"_src/math/numpy.py", S+"_src/math/torch.py", S+"_src/util.py"],
  [("backend dispatch", S+"_src/util.py"), ("typed constructors", S+"_src/math/meta.py")], ["import of MuyGPyS under each configuration"])
p("C26", "Mini-batch optimization honors the optimizer contract across epochs",
  "The experimental mini-batch optimizer, for every number of epochs, keep-state and probe-previous setting, random draw and optimizer answer, evaluates each epoch's objective on a valid batch of distinct training points with their true neighbors, reports the number of probes and steps it asked for, and returns a model with the best parameters found mapped and clipped to bounds, scale trained, and the input model unchanged.",
  ["configurations", "fault_sequences", "histories"], "all option combinations, every random draw and optimizer answer of a small grid, up to a few epochs",
  "Tests run one seed and check closeness of the result only.",
  [S+"optimize/experimental/chassis.py"], [("epoch loop", S+"optimize/experimental/chassis.py")], ["optimize_from_tensors_mini_batch"])
p("C27", "The JAX backend computes what the numpy backend computes",
  "For every supported operation the JAX backend returns the same values as the numpy backend for the same inputs and shapes.",
  ["inputs", "configurations"], "the grids of the corresponding numpy properties re-run under JAX",
  "Backend tests compare the two backends at one shape with one random data set.",
  [S+"_src/gp/tensors/jax.py", S+"_src/gp/muygps/jax.py", S+"_src/gp/kernels/jax.py", S+"_src/optimize/loss/jax.py"],
  [("jax implementations", S+"_src/**/jax.py")], ["same public API with MUYGPYS_BACKEND=jax"])
p("C28", "Models compare equal exactly when they are built alike",
  "Comparing two models never raises, answers the same in both orders, and == and != never agree. A model equals itself, its copy, and another model of the same kernel, metric, deformation, hyperparameter values, noise and scale, however it came by them. Two models of plain (isotropic or anisotropic) kernels that predict differently are unequal, after any history of setting, copying, training and optimizing.",
  ["configurations", "histories"], "all ordered pairs of model specifications and all pairs of live models along all operation sequences",
  "Tests compare one or two models of the same kind.",
  [S+"gp/muygps.py", S+"gp/kernels/kernel_fn.py", S+"gp/deformation/metric.py"], [("MuyGPS.__eq__", S+"gp/muygps.py")], ["MuyGPS.__eq__"])
p("C29", "Seeded runs repeat, and nothing process-wide is disturbed",
  "What every operation returns is a function of its inputs and, where it chooses at random, of the state of numpy's random source (or the random state it is given): run again from the same seed it returns the same, whatever ran before and whatever the other random sources hold, and leaves the source where it left it before. Random operations advance the source and do not reseed it; operations that choose nothing leave it alone. No operation, and not importing the library, changes process-wide settings (floating point error handling, printing, warnings, environment, working directory, torch defaults, gradient mode, signal handlers, logging).",
  ["histories", "configurations"], "all ordered pairs of public operations, all seeds of a small set, all modules imported",
  "Tests seed once and check values within tolerances; what an operation does to the rest of the process is never looked at.",
  [S+"optimize/batch.py", S+"gp/hyperparameter/scalar.py", S+"gp/hyperparameter/scale.py", S+"optimize/experimental/chassis.py", S+"_src/optimize/chassis/numpy.py"],
  [("batch sampling", S+"optimize/batch.py"), ("down-sampling", S+"gp/hyperparameter/scale.py"), ("sampled hyperparameters", S+"gp/hyperparameter/scalar.py")],
  ["sample_batch", "get_balanced_batch", "DownSampleScale", "ScalarParam('sample')", "optimize_from_tensors_mini_batch", "every public operation"])
p("C30", "Failures leave no trace",
  "When an operation fails or is interrupted at any point (an illegal argument, a singular system, a failing optimizer or random source, an interruption between two lines), the arrays, models, neighbor lookups and process-wide settings it worked with are as before and answer as before, and the operation can be repeated with the answer it would have given. Updates in place (setting parameters, bounds, noise and scale; training the scale of a model or of all models of a multivariate model) that fail on their arguments or computations change nothing at all.",
  ["crash_points", "fault_sequences"], "every line of library code of every public operation as a crash point; every setter with every illegal value; a fault at every seam",
  "Tests check that errors are raised, not what a failed operation leaves behind.",
  [S+"gp/kernels/kernel_fn.py", S+"gp/multivariate_muygps.py", S+"gp/hyperparameter/scalar.py", S+"gp/hyperparameter/scale.py", S+"neighbors.py"],
  [("set_params", S+"gp/kernels/kernel_fn.py"), ("optimize_scale", S+"gp/multivariate_muygps.py"), ("setters", S+"gp/hyperparameter/scalar.py")], ["every public operation"])
p("C31", "Interleaved operations do not disturb each other",
  "Two operations that neither draw from the same random source nor update the same object in place may be interleaved at any line (two threads, a callback, a signal handler), on the same or on different models, lookups and data: each returns what it returns alone, and everything they share is as before.",
  ["schedules"], "all schedules of two operations with one preemption at any line, and of two threads with two preemptions on a grid of lines",
  "Tests are single-threaded; work arrays and attributes shared between calls give right answers in every sequential run.",
  [S+"gp/muygps.py", S+"gp/kernels/kernel_fn.py", S+"_src/gp/tensors/numpy.py", S+"_src/gp/muygps/numpy.py", S+"neighbors.py", S+"optimize/chassis.py"],
  [("kernel evaluation", S+"gp/kernels"), ("backend functions", S+"_src/gp"), ("models", S+"gp/muygps.py")], ["every public operation"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
