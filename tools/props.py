"""the list of properties: properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md are generated from it"""
P = []


def prop(id, title, statement, over, quant, why, files, mech, design, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, design=design, state=state, observe=observe))


CR = "fortuna/conformal/regression/"
CC = "fortuna/conformal/classification/"
MV = "fortuna/conformal/multivalid/"

prop("C01", "Split conformal regression intervals carry the finite-sample rank",
     "The quantile used by the split conformal regressors (quantile, one-dimensional-uncertainty and scalar-bounds variants) is, for every calibration set and error level, an attained calibration score that at least a (1-error)(n+1)/n fraction of the calibration scores do not exceed and no smaller score does (the largest score when the rank exceeds n). "
     "The intervals are exactly the documented widening of the given bounds by that quantile, they contain every calibration-like target whose score is at most the quantile, each row depends only on its own test input, and invalid shapes are rejected without modifying the inputs.",
     ["inputs"], "every calibration set, test input and target within the size bounds, for the listed error levels",
     "The tests call the methods on one random draw and compare shapes or average coverage: an off-by-one rank or a swapped bound passes them.",
     [CR + "quantile.py", CR + "onedim_uncertainty.py", CR + "base.py"],
     [("conformity scores and adjusted quantile", CR + "quantile.py"), ("score = |residual| / uncertainty", CR + "onedim_uncertainty.py"), ("is_in", CR + "base.py")],
     "Scores, quantile and interval are executed symbolically for up to 4 calibration points; oracle: rank definition of the quantile over a sorting network, interval formula, membership equivalence.")
prop("C02", "Jackknife+, minmax and CV+ intervals are the documented order statistics",
     "For every set of leave-one-out (or cross-validation) residuals and test predictions, the lower and upper interval bounds are the documented order statistics of the predictions shifted by the residuals (or of the extreme predictions for minmax), the lower bound never exceeding the upper one for the minmax method. "
     "Permuting the folds or leave-one-out models does not change the interval, every test input is treated on its own, and the lists or arrays of the caller are not modified.",
     ["inputs", "configurations"], "all residuals and predictions for up to 4 folds/points and the listed error levels; unequal fold sizes included",
     "Tests only check shapes and the coverage of one seeded example.",
     [CR + "jackknifeplus.py", CR + "jackknife_minmax.py", CR + "cvplus.py"],
     [("order statistics of shifted predictions", CR + "jackknifeplus.py"), ("extreme predictions", CR + "jackknife_minmax.py"), ("per-fold residuals", CR + "cvplus.py")],
     "All three methods executed symbolically; oracle: linear-interpolated order statistics over a sorting network, permutation twins, input snapshots.")
prop("C03", "EnbPI aggregates only out-of-bag models and slides its residual window",
     "For every bootstrap index table, the residual of a training point aggregates exactly the models whose bootstrap sample does not contain it, and intervals are centred on the aggregated test predictions with a half width given by the documented quantile of the residuals. "
     "In the sequential and batch modes the residual window keeps its size, drops the oldest residuals and appends the newest ones in order, intervals of a batch only use the residuals available before it, and the given residuals are left unchanged.",
     ["inputs", "configurations", "histories"], "every bootstrap table up to 2x3 (symbolic) and larger concrete ones, all predictions, targets and feedback within bounds",
     "The tests run one bootstrap draw and look at shapes; the dependence on the bootstrap table and the order of updates is never exercised.",
     [CR + "enbpi.py"], [("out-of-bag aggregation", CR + "enbpi.py:conformal_interval"), ("sliding window", CR + "enbpi.py:conformal_interval_from_residuals")],
     "Bootstrap tables, predictions and targets are symbolic; oracle: direct definition of the out-of-bag mean, residual window and interval.")
prop("C04", "Adaptive conformal inference updates the error level exactly, within [0,1]",
     "After every observed time step the new error level of the adaptive conformal methods is exactly the old one plus the step size times (target error minus the, possibly weighted, average of the miscoverage indicators including the current one), clipped to [0,1], so it decreases after misses and increases after hits. "
     "The membership history given back is the given one followed by the current outcome, the history given by the caller is not modified, and feeding the outputs back reproduces the recursion over time. "
     "Non-positive step sizes, histories and weights of the wrong length, non-binary histories and weights that are not an ascending probability vector are rejected.",
     ["inputs", "histories"], "every sequence of up to 3 outcomes, all intervals, targets, weights, step sizes and error levels in their domain",
     "The tests check one fixed call; the sign, the weighting and the history dependence are not settled by it.",
     [CR + "adaptive_conformal_regressor.py", CC + "adaptive_conformal_classifier.py"],
     [("update_error", CR + "adaptive_conformal_regressor.py"), ("update_error", CC + "adaptive_conformal_classifier.py")],
     "Outcomes are symbolic through symbolic targets and intervals; oracle: closed-form clipped update and the recursion over 3 steps.")
prop("C05", "Conformal classification sets are the labels whose score rank conforms",
     "For every matrix of class probabilities, the simple and adaptive scores are one minus the probability of the label and the total mass of the classes ranked at least as probable as it, and the conformal set of a test input is exactly the set of labels for which fewer than (1-error)(n+1) calibration scores are strictly smaller than the label's score. "
     "Sets are nested as the error grows, membership reporting agrees with the sets, and each test input only depends on its own probabilities.",
     ["inputs", "configurations"], "all probability matrices and labels within bounds, for the listed error levels",
     "The tests use one toy probability table; ties, set sizes, rank boundaries and nestedness are not covered.",
     [CC + "base.py", CC + "simple_prediction.py", CC + "adaptive_prediction.py"],
     [("rank rule", CC + "base.py"), ("scores", CC + "simple_prediction.py"), ("cumulative scores", CC + "adaptive_prediction.py")],
     "Scores and sets executed symbolically, forking on set sizes; oracle: counting definition of the rank, simplex assumptions.")
prop("C06", "Maximum-coverage calibration keeps the precision it promises",
     "For every labelled calibration sample, the chosen positive (negative) rescaling factor is a value of the documented grid, reaches the requested precision plus margin on the selected region whenever some grid value does, and no grid value reaching it selects more points; when none reaches it the identity is used. "
     "Applying the calibration rescales only the probabilities on the corresponding side of one half, never leaves [0,1], treats each point on its own, and the reported precisions and coverages are the empirical ones of those regions.",
     ["inputs", "configurations"], "all probabilities and labels for up to 4 points, grids of up to 4 factors, the listed thresholds and margins",
     "The tests run one random sample and check ranges only.",
     [CC + "maxcovfixprec_binary_classfication.py"],
     [("grid search of the factors", CC + "maxcovfixprec_binary_classfication.py:calibrate"), ("rescaling", CC + "maxcovfixprec_binary_classfication.py:apply_patches")],
     "Calibration and application executed symbolically over all probabilities and labels; oracle: empirical precision/coverage recomputed for every grid value.")
prop("C07", "Multicalibration patches the worst group and never worsens validation loss",
     "Each accepted round of the iterative multicalibrators patches the (group, bucket) set with the largest weighted calibration error among those with enough probability, by exactly the gap (or ratio) between the mean score and the mean value of that set, and the reported losses are the mean squared errors on the validation part; rounds that increase the validation loss are not kept. "
     "Applying the patches replays, for arbitrary new values and groups, exactly the accepted sequence of clipped updates on members of the patched sets only, point by point, without modifying the input, with the top-label variant touching a class only where it is the most probable; the reported calibration error per group is the weighted sum of squared gaps over buckets. "
     "Invalid arguments are rejected, and with no patches the values are returned unchanged.",
     ["inputs", "histories", "configurations"], "arbitrary scores (or values) of 4 calibration points, arbitrary values/groups at application, the listed bucket types, step sizes and patch types",
     "The tests run a few seeds and check that losses decrease; which set is patched, by how much, and replay on new data are not checked.",
     [MV + "iterative/base.py", MV + "iterative/multicalibrator.py", MV + "iterative/classification/top_label_multicalibrator.py", MV + "mixins/multicalibrator.py"],
     [("calibration loop", MV + "iterative/base.py:calibrate"), ("replay of the patches", MV + "iterative/base.py:apply_patches"), ("bucket error and patch", MV + "iterative/multicalibrator.py")],
     "One calibration round with symbolic scores or symbolic values, patches from concrete rounds replayed on symbolic values and groups; oracle: direct recomputation of bucket gaps, losses and clipped updates.")
prop("C08", "One-shot multicalibration replaces a value by its bucket's mean score",
     "For every calibration sample and new value, one-shot multicalibration returns the mean score of the calibration points in the bucket nearest to the value when that bucket holds more than the minimal probability, and the bucket's centre otherwise; in the top-label variant only the most probable class of a point is changed, using the points for which that class was most probable. "
     "The calibrated value of a point does not depend on the other points it is batched with, lies in [0,1], and inputs are validated and left unchanged.",
     ["inputs", "configurations"], "all scores, values and labels within bounds (up to 4 calibration points, 3 test values, 4 buckets, 3 classes)",
     "The tests check output shapes and ranges on random draws.",
     [MV + "one_shot/base.py", MV + "one_shot/multicalibrator.py", MV + "one_shot/classification/top_label_multicalibrator.py"],
     [("patch table", MV + "one_shot/base.py:calibrate"), ("nearest bucket application", MV + "one_shot/base.py:_patch"), ("bucket means", MV + "one_shot/multicalibrator.py")],
     "Calibration and application executed symbolically, forking on the distinct values; oracle: bucket-mean definition.")
prop("C09", "BatchMVP thresholds close the coverage gap of the worst group",
     "Each accepted BatchMVP round shifts the thresholds of the worst (group, bucket) set, among those with enough probability, by the grid shift that minimises the squared gap between the coverage level and the empirical coverage of that set; reported losses are the pinball losses of the validation part and never increase over accepted rounds. "
     "Applying the patches replays the clipped shifts on members of the patched sets only, the reported calibration error per group is the weighted sum of squared coverage gaps over buckets, and the classification sets contain exactly the labels whose score is at most the threshold.",
     ["inputs", "histories", "configurations"], "all scores of 4 points (3 for the error), thresholds and groups within bounds, the listed bucket types, coverage levels",
     "The tests look at shapes and at loss decrease for single draws.",
     [MV + "iterative/batch_mvp.py", MV + "iterative/base.py", MV + "mixins/batchmvp.py", MV + "iterative/regression/batch_mvp.py"],
     [("coverage error and patch search", MV + "iterative/batch_mvp.py"), ("pinball loss", MV + "mixins/batchmvp.py"), ("sets", MV + "iterative/regression/batch_mvp.py")],
     "Scores symbolic in one full round, thresholds/groups symbolic in replay; oracle: counting definition of coverage and exhaustive comparison over the shift grid inside the solver query.")
NA = []


def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, design="NOT APPLICABLE: " + reason, state=None, observe=None))
    NA.append((id, reason))


prop("C10", "Classification metrics are the documented bin statistics",
     "For every table of class probabilities (or confidences), predictions and targets, every point falls in exactly one of the ten confidence bins, counts, mean confidences and accuracies per bin are those of its points, the expected calibration error is the count-weighted mean of the absolute gaps and the maximum calibration error is the largest gap. "
     "Accuracy is the fraction of correct predictions and the Brier score the mean squared distance to the one-hot target, so all of them stay in their documented range and do not depend on the order of the points.",
     ["inputs"], "all probabilities, predictions and targets of up to 3 points and 3 classes, away from the bin edges",
     "The tests evaluate one random table; a point lost at a bin edge or a wrong weighting passes them.",
     ["fortuna/metric/classification.py"],
     [("bins", "fortuna/metric/classification.py:compute_counts_confs_accs"), ("ECE/MCE", "fortuna/metric/classification.py"), ("Brier score", "fortuna/metric/classification.py:brier_score")],
     "Metrics executed symbolically; oracle: membership of the bins recomputed per point, products instead of quotients.")
prop("C11", "Regression metrics and losses equal their definitions",
     "Root mean squared error, prediction interval coverage probability and the other regression metrics equal their definition for every prediction, bound and target, with closed bounds, every point counted once and wrong shapes refused. "
     "Cross-entropy, focal and scaled mean-squared-error losses equal the documented formula for every output and target, with the focal loss reducing to the cross-entropy when its exponent is zero.",
     ["inputs"], "all predictions, bounds, targets and outputs of up to 3 points and 3 classes",
     "The tests compare a single value or the shape only.",
     ["fortuna/metric/regression.py", "fortuna/loss/classification/cross_entropy.py", "fortuna/loss/classification/focal_loss.py", "fortuna/loss/regression/scaled_mse.py"],
     [("metrics", "fortuna/metric/regression.py"), ("losses", "fortuna/loss/classification/focal_loss.py")],
     "Symbolic execution of metrics and losses; oracle: direct formulas with axiomatised exp/log.")
prop("C12", "Output layers and temperature scaling are consistent distributions",
     "For all model outputs the classification layer is the softmax categorical distribution (log-probability, mean, variance, entropy and mode agree with each other and labels of probability zero are never drawn), the masked one ignores exactly the masked targets, and the regression layer is the Gaussian with the predicted mean and exponentiated log-variance, whose samples, quantiles, credible intervals and entropy follow from it. "
     "Temperature scaling divides logits by (or shifts log-variances by the log of) a positive temperature, so it keeps the ranking of the classes and the predicted means, and its initial temperature leaves the outputs unchanged.",
     ["inputs"], "all outputs in [-3,3], targets, draws and temperatures for up to 3 classes, 2 inputs, 4 draws",
     "Tests check shapes on zero or random outputs; values are almost never compared.",
     ["fortuna/prob_output_layer/base.py", "fortuna/prob_output_layer/classification.py", "fortuna/prob_output_layer/regression.py", "fortuna/output_calibrator/classification.py", "fortuna/output_calibrator/regression.py", "fortuna/output_calibrator/output_calib_manager/base.py"],
     [("categorical layer", "fortuna/prob_output_layer/classification.py"), ("Gaussian layer", "fortuna/prob_output_layer/regression.py"), ("temperature", "fortuna/output_calibrator/classification.py")],
     "Layers executed symbolically with shift-normalised log-sum-exp, random draws replaced by arbitrary values; oracle: direct formulas.")
prop("C13", "Likelihood, joint and prior are the documented (calibrated) densities",
     "For all parameters, calibration parameters and data, the outputs are the calibrated model outputs of the given inputs in the order of the loader (batched or spread over devices), the log-likelihood of a batch is the data size over the batch size times the sum of the log-probabilities, and the joint adds the Gaussian prior density of the flattened parameters. "
     "Mean, mode, variance, standard deviation, entropy, samples and quantiles of the likelihood follow from these outputs, and given outputs replace the forward pass. "
     "Unsupported auxiliary objects and inconsistent arguments are refused.",
     ["inputs", "configurations"], "all weights of a dense layer, log-temperatures and targets in [-2,2], up to 3 data points and 2 outputs, batches and devices as listed",
     "The tests evaluate shapes on a few random parameters; scaling factors, order and signs are not compared.",
     ["fortuna/likelihood/base.py", "fortuna/likelihood/classification.py", "fortuna/likelihood/regression.py", "fortuna/prob_model/joint/base.py", "fortuna/prob_model/prior/gaussian.py", "fortuna/prob_model/predictive/base.py"],
     [("batch log-joint", "fortuna/likelihood/base.py:_batched_log_joint_prob"), ("loops over loaders", "fortuna/likelihood/base.py:_loop_fun_through_inputs_loader"), ("priors", "fortuna/prob_model/prior/gaussian.py")],
     "Likelihood, joint and priors executed symbolically with a dense layer of arbitrary weights; oracle: direct formulas on the weights.")
prop("C14", "Predictive statistics marginalise the likelihood over posterior samples",
     "For every posterior (any sample per key) the predictive mean, aleatoric variance and aleatoric entropy are the averages of the likelihood's over the posterior samples, the epistemic variance is the variance of the means, variance and entropy are aleatoric plus epistemic, the log-probability is the logarithm of the average probability, and the target draws use one posterior sample each for all inputs, in the order of the loader, locally or over devices. "
     "Quantiles, credible intervals, modes and auxiliary outputs are those of these samples and given means or variances are used instead of drawing. "
     "Credible sets are the smallest sets of most probable labels whose mass exceeds the level, and conformal sets contain exactly the labels whose importance-weighted rank exceeds it.",
     ["inputs", "configurations"], "arbitrary outputs, states and temperatures of up to 3 posterior samples and 4 inputs, arbitrary noise, batches and 1-2 emulated devices as listed",
     "The tests check shapes; averaging over the wrong axis, order across devices or mis-signed terms pass them.",
     ["fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py"],
     [("moments", "fortuna/prob_model/predictive/base.py:_batched_epistemic_variance"), ("samples and devices", "fortuna/prob_model/predictive/base.py:sample"), ("entropies and sets", "fortuna/prob_model/predictive/classification.py"), ("intervals", "fortuna/prob_model/predictive/regression.py")],
     "Predictive code executed symbolically on a posterior that returns an arbitrary table entry per key; oracle: direct averages of the table, shared log-sum-exp atoms.")
prop("C15", "Data loaders lose, duplicate, reorder or mispair nothing",
     "For every size, batch size, permutation and content, iterating a loader yields every data point exactly once, each with its own target and in the documented order, repeatably, with batches of the requested size except possibly the last; conversions to arrays, inputs or targets, sizes and shapes agree with it and given arrays are unchanged. "
     "Splitting, chopping, sampling, concatenating, interposing, labelling and transforming keep or drop exactly the documented points, with a fresh transformation status in every iteration. "
     "Adding the device dimension is a reshape, refused when the devices do not divide the batch.",
     ["inputs", "configurations", "histories"], "arbitrary contents of up to 5 points, batch sizes up to 5, split positions, divisors, permutations and selections as listed",
     "The tests use one array size per loader; boundary positions of split/chop/sample relative to the batches are not exercised.",
     ["fortuna/data/loader/array_loaders.py", "fortuna/data/loader/base.py", "fortuna/data/loader/utils.py"],
     [("batches", "fortuna/data/loader/utils.py:from_batch_array_data"), ("split/chop/sample", "fortuna/data/loader/array_loaders.py"), ("devices", "fortuna/data/loader/base.py:DeviceDimensionAugmentedLoader")],
     "Sizes and choices are symbolic integers split over exhaustively, contents symbolic reals; oracle: list of row indices.")
prop("C16", "Training performs exactly the configured optimisation steps",
     "For all parameters, targets and states, training applies one optimiser step per batch (or per group of accumulated batches, with the average gradient), with gradients clipped to the maximal norm, changes trainable parameters only, carries the model state and returns all parameters; reported losses and metrics are the averages over the steps of each epoch. "
     "Validation uses the updated parameters without changing anything, every configured number of epochs, and training stops exactly when the monitored quantity has not improved by the minimal amount for more than the patience. "
     "Callbacks, random keys and checkpoints (of the complete parameters, when due, when improved and at the end) happen at the documented steps.",
     ["inputs", "histories", "configurations"], "4 parameters in a nested tree and targets in [-1,1], up to 4 batches and 5 epochs, every sequence of validation losses",
     "The tests run training for shapes and types; parameters after training are not compared with a reference.",
     ["fortuna/training/trainer.py", "fortuna/training/mixin.py", "fortuna/utils/training.py", "fortuna/utils/freeze.py", "fortuna/utils/nested_dicts.py", "fortuna/prob_model/posterior/map/map_trainer.py", "fortuna/prob_model/posterior/base.py"],
     [("step, accumulation, clipping", "fortuna/training/trainer.py:training_step"), ("loop and validation", "fortuna/training/trainer.py:train"), ("early stopping and checkpoints", "fortuna/training/mixin.py"), ("freezing", "fortuna/utils/freeze.py")],
     "The whole training loop, including automatic differentiation, executed symbolically; oracle: analytic gradients and a hand-written loop; early stopping forks over the order of the losses.")
prop("C17", "Stored posterior states come back unchanged, each from its own slot",
     "Whatever the history of operations, a state repository (single, multi-member or Markov-chain; in memory or in checkpoints) returns from each slot the state last put or updated there, of its own kind, with parameters, model and calibration states, step and extra fields unchanged, only the named fields changed by an update, and, where only some parameters are sampled, the frozen ones filled in from the common ones; returned copies do not alias the stored state. "
     "Pulling from a checkpoint removes it, at most the requested number of checkpoints is kept, absent states are refused, and saving a posterior into a directory and loading it gives a posterior with the same states. "
     "Sampling returns the drawn member with all its states; members start from fresh parameters where trainable and from the preliminary ones where frozen, with the configured optimizer.",
     ["histories", "inputs", "configurations"], "every sequence of 1-2 operations on 2 slots, arbitrary 4-parameter states of every kind, every choice of frozen arrays",
     "The tests put and get one state per repository; slots, subsets of parameters, explicit paths and directories are not combined.",
     ["fortuna/training/train_state_repository.py", "fortuna/training/mixin.py", "fortuna/prob_model/posterior/posterior_multi_state_repository.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/state.py", "fortuna/prob_model/posterior/base.py", "fortuna/utils/strings.py"],
     [("single slot", "fortuna/training/train_state_repository.py"), ("slots", "fortuna/prob_model/posterior/posterior_multi_state_repository.py"), ("subset of parameters", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py"), ("save and load", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py")],
     "Operation codes and slots are symbolic integers split over exhaustively, contents symbolic reals, in a scratch directory with the bytes of the checkpoints replaced by the symbolic state dictionary; oracle: one record per slot.")
prop("C18", "SGMCMC chains follow the documented Langevin/Hamiltonian recursions",
     "For all gradients, masses, step sizes and normal draws, one step of stochastic-gradient Hamiltonian Monte Carlo updates momentum and parameters by the documented recursion (climbing the log-density), cyclical Langevin dynamics alternates gradient and Langevin steps by the position in the cycle, preconditioners multiply consistently by powers of the same mass, and step-size schedules stay finite, between their bounds, monotone and periodic as documented. "
     "Samples are collected at exactly the documented steps (after burn-in or exploration, thinned, in order, as many as requested, refused when the run is too short) and fitting stores exactly the states of the chain. "
     "Every random key handed out is used for one thing only and every array receives its own noise.",
     ["inputs", "histories", "configurations"], "3 parameters, up to 3 integration steps with arbitrary gradients, draws, masses and step sizes; every step number of the schedules within two cycles; every burn-in, thinning, cycle and sample number up to 4",
     "The tests check that a schedule changes and that fits run; recursions, signs and collection steps are not compared.",
     ["fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_callback.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_integrator.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_preconditioner.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py", "fortuna/utils/random.py"],
     [("integrators", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py"), ("collection", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_callback.py"), ("schedules", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py"), ("keys", "fortuna/utils/random.py")],
     "Integrators, schedules and the whole fit executed symbolically with arbitrary draws; keys as terms of a free algebra; oracle: hand-written recursions and lists of steps.")
prop("C19", "MAP, deep ensembles and SWAG fit the documented approximations",
     "For every sequence of iterates, the MAP state holds the last iterate (or the best validated one when monitored), every ensemble member is an independent such run from its own initial parameters, and SWAG holds the running mean, the running standard deviation and the last deviations of the iterates, each iterate with equal weight, whatever the number of batches, devices or parameter arrays. "
     "Samples are the state itself, a uniformly drawn member, or mean plus diagonal and low-rank noise as documented, each array receiving the entries of its own parameters, and frozen parameters keep the initial values. "
     "The status reports the losses and metrics of each epoch.",
     ["inputs", "histories", "configurations"], "every sequence of iterates of up to 3 epochs of 2 batches, up to 3 arrays (12 for the order), every draw, rank 2, every choice of frozen arrays listed",
     "The tests fit for an epoch and look at shapes; moments, weights of iterates and the order of the arrays are never compared.",
     ["fortuna/prob_model/posterior/map/map_posterior.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/swag/swag_posterior.py", "fortuna/prob_model/posterior/swag/swag_trainer.py", "fortuna/prob_model/posterior/swag/swag_state.py", "fortuna/prob_model/posterior/map/map_trainer.py", "fortuna/utils/strings.py"],
     [("running moments", "fortuna/prob_model/posterior/swag/swag_trainer.py"), ("draws", "fortuna/prob_model/posterior/swag/swag_posterior.py:sample"), ("members", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py:fit")],
     "Whole fits executed symbolically, the gradients being such that the iterates are arbitrary; oracle: plain means of the iterates and the documented sampling formula.")
prop("C20", "Laplace approximation: curvature, draws and prior tuning are as documented",
     "For all Jacobians, likelihood curvatures and prior variances, the diagonal generalised Gauss-Newton matrix is the sum over the data of the squared Jacobians weighted by the curvature of the likelihood in the outputs, for the trainable arrays each in its own place and for either type of factorization and any batching. "
     "The standard deviations add the prior precision (isotropic or diagonal) to it, draws are the mode plus noise times these deviations with frozen parameters unchanged, and tuning picks the candidate prior log-variance with the best validation log-probability, on one or several devices. "
     "The fit starts from the given MAP run or a fresh one and stores mode, curvature and prior variance.",
     ["inputs", "configurations"], "up to 3 data points, 2 outputs, 4 arrays (12 for the order), arbitrary Jacobians and curvatures, 2 grid candidates",
     "The tests run the fit for shapes; a transposed, mis-scaled or misplaced curvature passes them.",
     ["fortuna/prob_model/posterior/laplace/laplace_posterior.py", "fortuna/prob_model/posterior/laplace/laplace_state.py", "fortuna/utils/strings.py"],
     [("GGN", "fortuna/prob_model/posterior/laplace/laplace_posterior.py"), ("draws", "fortuna/prob_model/posterior/laplace/laplace_posterior.py:sample"), ("prior tuning", "fortuna/prob_model/posterior/laplace/laplace_posterior.py:fit")],
     "GGN, fit, draw and tuning executed symbolically with harness-given linear outputs and quadratic likelihoods; eigendecompositions are arbitrary ones; oracle: direct sums.")
prop("C21", "Model managers pair each sub-model with its own parameters and state",
     "For all weights, inputs and running statistics, the regression manager returns the mean model's outputs followed by the log-variance model's outputs, each computed from its own parameters and collections in the given mode, and the updated collections of each come back in its own slot. "
     "The classification manager returns the logits of its model, a model editor wraps the forward pass, and initialisation creates parameters and collections for every sub-model, from separate keys. "
     "Models whose output dimensions do not match are refused.",
     ["inputs", "configurations"], "small dense models with and without running statistics, 2 inputs, training and evaluation, every weight in [-2,2]",
     "The tests check the shape of outputs; swapped parameters or lost statistics pass them.",
     ["fortuna/model/model_manager/regression.py", "fortuna/model/model_manager/classification.py", "fortuna/model/model_manager/base.py", "fortuna/model/model_manager/state.py"],
     [("regression", "fortuna/model/model_manager/regression.py:apply"), ("classification", "fortuna/model/model_manager/classification.py:apply")],
     "Managers executed symbolically with small flax models; oracle: hand-written affine maps and running averages.")
prop("C22", "Uncertainty-scaled logits follow probit, SNGP and spectral norm formulas",
     "For all outputs and Jacobians, probit scaling divides the logits by one plus the scaled variance that the trainable parameters induce in them (each output with its own Jacobian row; sequential and top-k variants token by token, treating previous tokens as documented) and leaves values of other outputs unchanged. "
     "SNGP accumulates the precision of its random features in training only, resets it on request, predicts the covariance by its inverse and applies the mean-field factor, and spectral normalisation divides kernels by their largest singular value estimate exactly when it exceeds the bound. "
     "Inconsistent token numbers are refused.",
     ["inputs", "configurations"], "up to 3 tokens, 3 outputs, 3 parameters, 2 features, every Jacobian, variance, precision and kernel of the stated shapes",
     "The tests compare shapes or one random example; which Jacobian row scales which logit is not fixed by them.",
     ["fortuna/utils/probit.py", "fortuna/utils/grad.py", "fortuna/model_editor/probit.py", "fortuna/model_editor/base.py", "fortuna/model/utils/random_features.py", "fortuna/model/utils/spectral_norm.py", "fortuna/model/model_manager/classification.py"],
     [("probit", "fortuna/utils/probit.py"), ("random features", "fortuna/model/utils/random_features.py"), ("spectral norm", "fortuna/model/utils/spectral_norm.py")],
     "Scaling code executed symbolically on affine outputs at zero parameters, where value and Jacobian are independent; oracle: closed formulas with closed-form inverses.")
prop("C23", "ADVI fits and samples a mean-field Gaussian over the right parameters",
     "For all draws, gradients and initialisations, one optimisation step of ADVI follows the gradient of the negative evidence lower bound (log-joint of transformed draws plus the log-determinant, averaged over the draws), moving means and log standard deviations of exactly the trainable parameters. "
     "The initial means and deviations are the given or default ones, each array in its own place, and draws are mean plus deviation times noise with frozen parameters unchanged. "
     "The flow, its inverse and its log-determinant agree, and the base density is the Gaussian one.",
     ["inputs", "configurations"], "2-3 arrays of parameters, up to 2 steps of 2 draws, every gradient, draw and initialisation in [-2,2]",
     "The tests run the fit for shapes; a sign or an exchanged array passes them.",
     ["fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_architecture.py", "fortuna/distribution/gaussian.py", "fortuna/utils/freeze.py"],
     [("steps", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py"), ("draws", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py"), ("flow", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_architecture.py")],
     "The whole fit and the draws executed symbolically with a linear log-density of arbitrary gradient; oracle: hand-written recursion.")
prop("C24", "Post-hoc output calibration optimises and applies the calibrator correctly",
     "For all outputs and targets, calibrating performs one optimiser step per epoch on the configured loss of all the outputs (averaged over posterior samples and, with several devices, over the devices), carries the calibrator's state, validates on the validation outputs with their own targets, and stops, keeps the best parameters and stores checkpoints exactly as configured. "
     "Everything predicted afterwards (densities, means, modes, entropies, variances, intervals, samples) uses the calibrated outputs. "
     "Mismatching dimensions and missing arguments are refused.",
     ["inputs", "histories", "configurations"], "up to 4 outputs of dimension 2-3, targets in [-2,2], 2 epochs, 1-2 emulated devices, every sequence of 4 validation losses",
     "The tests run calibrations for types; parameters after calibration and pairing of outputs and targets over devices are not compared.",
     ["fortuna/output_calib_model/base.py", "fortuna/output_calib_model/classification.py", "fortuna/output_calib_model/regression.py", "fortuna/output_calib_model/loss.py", "fortuna/output_calib_model/output_calib_model_calibrator.py", "fortuna/output_calib_model/predictive/base.py", "fortuna/training/output_calibrator.py", "fortuna/prob_model/prob_model_calibrator.py"],
     [("steps", "fortuna/training/output_calibrator.py"), ("losses", "fortuna/output_calib_model/loss.py"), ("predictive", "fortuna/output_calib_model/predictive/base.py")],
     "Whole calibrations executed symbolically with dyadic outputs and arbitrary targets; devices are emulated by vectorisation over a device axis; oracle: analytic gradients and a hand-written loop.")
