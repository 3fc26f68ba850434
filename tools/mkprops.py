#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
K = 'filterpy/kalman/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop('C01', 'Prediction is exact linear-Gaussian propagation',
 "For every state, covariance, model matrices, control input, scalar or matrix process noise override and fading factor alpha, a predict step yields exactly the mean F x + B u and covariance alpha^2 F P F' + Q. "
 "The object-oriented Kalman filter, its non-mutating prediction query, its steady-state form (mean only, covariance untouched), the procedural functions, the extended and the fading-memory Kalman filters all agree on this (the H-infinity filter and its query on the mean), and the recorded prior equals the result.",
 ['inputs', 'configurations', 'histories'],
 'every dimension, every real-valued model and filter state (whatever history produced it), every combination of per-call overrides, one- and two-dimensional state layout',
 'tests run a handful of fixed 2- to 4-state models with default arguments; overrides, control inputs, scalar Q and alpha are barely exercised and outputs are compared loosely',
 [K+'kalman_filter.py', K+'EKF.py', K+'fading_memory.py'],
 [('predict / get_prediction / predict_steadystate', K+'kalman_filter.py'), ('predict', K+'EKF.py'), ('predict', K+'fading_memory.py')],
 ['x', 'P', 'x_prior', 'P_prior', 'return values'])

prop('C02', 'Measurement update is the exact optimal Bayesian posterior',
 "For every prior, measurement, measurement matrix and (scalar or matrix) noise, an update yields the innovation z - Hx, its covariance S = HPH'+R, the gain P H' S^-1, the mean x + K y and the covariance of the exact linear-Gaussian posterior. "
 "The object-oriented filter, its non-mutating update query, the procedural functions (including floats for scalar problems), the extended filter (linearised at the predicted state, also in its combined predict-update form) and the fading-memory filter all agree, with per-call R and H honoured.",
 ['inputs', 'configurations', 'histories'],
 'every dimension, prior, measurement, noise and measurement matrix, every accepted way of passing z, R, H; user-supplied residual and measurement functions arbitrary',
 'tests compare noisy trajectories visually or loosely; most per-call overrides and shapes are never checked against the posterior',
 [K+'kalman_filter.py', K+'EKF.py', K+'fading_memory.py', 'filterpy/common/helpers.py'],
 [('update / get_update', K+'kalman_filter.py'), ('update / predict_update', K+'EKF.py'), ('update', K+'fading_memory.py'), ('reshape_z', 'filterpy/common/helpers.py')],
 ['x', 'P', 'y', 'S', 'SI', 'K', 'z', 'x_post', 'P_post', 'return values'])

prop('C03', 'Covariances stay symmetric positive semidefinite',
 "Starting from any symmetric positive semidefinite covariance with positive semidefinite process noise and positive definite measurement noise, the covariance after any predict or update of the Kalman, extended Kalman, fading-memory and square-root filters is again symmetric positive semidefinite. "
 "An update never increases uncertainty (prior minus posterior covariance is positive semidefinite), and the same holds for the smoothed against the filtered covariance.",
 ['inputs', 'histories'],
 'all dimensions, all histories of predicts and updates (inductive invariant over single steps), all admissible models',
 'tests never check definiteness; positive semidefiniteness after arbitrarily many steps is a history property',
 [K+'kalman_filter.py', K+'EKF.py', K+'fading_memory.py', K+'square_root.py'],
 [('Joseph-form covariance update', K+'kalman_filter.py'), ('Joseph-form covariance update', K+'EKF.py'), ('factored covariance', K+'square_root.py')],
 ['P', 'P_prior', 'P_post'])

prop('C04', 'A missing measurement changes nothing',
 "Updating with None as the measurement leaves the state estimate and covariance of every filter exactly as they were, records them as the posterior, and marks the last measurement as missing. "
 "This holds for the Kalman filter (plain, steady-state and correlated updates and the procedural functions), extended, fading-memory, square-root, information, unscented, cubature and ensemble filters, and inside batch runs.",
 ['inputs', 'histories'],
 'every filter state, dimension and history before the missing epoch',
 'tests touch None for a few filters without checking all recorded quantities',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'ensemble_kalman_filter.py', K+'fading_memory.py', K+'square_root.py', K+'information_filter.py', 'filterpy/hinfinity/hinfinity_filter.py'],
 [('early return on None', K+'kalman_filter.py')], ['x', 'P', 'x_post', 'P_post', 'z', 'y'])

prop('C05', 'Queries are pure; inputs and snapshots are never aliased',
 "Prediction, update, residual, measurement and likelihood queries return their answer without changing any filter state, and predict/update calls change neither the model matrices nor the arrays the caller passed in or obtained earlier; per-call overrides affect only that call. "
 "The recorded priors, posteriors and measurement are independent copies, so later steps or in-place edits never alter them.",
 ['inputs', 'histories', 'configurations'],
 'every filter class, every call with every combination of optional arguments',
 'aliasing shows only under particular later mutations that no test performs',
 [K+'kalman_filter.py', K+'EKF.py', K+'fading_memory.py', K+'square_root.py', K+'information_filter.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'ensemble_kalman_filter.py', K+'IMM.py', K+'mmae.py', K+'fixed_lag_smoother.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py', 'filterpy/leastsq/least_squares.py', 'filterpy/memory/fading_memory.py'],
 [('copies of priors, posteriors and z', K+'kalman_filter.py'), ('get_prediction/get_update/residual_of/measurement_of_state', K+'kalman_filter.py')],
 ['every public attribute', 'argument arrays'])

prop('C06', 'Batch filtering equals the step-by-step recursion',
 "Running a batch of measurements returns, for every epoch, exactly the means and covariances obtained by calling predict and update one epoch at a time in the requested order, with that epoch's own model matrices, noise, control input and time step, and with missing measurements skipped. "
 "This holds for the Kalman filter class and procedural batch functions, the fading-memory, unscented and H-infinity filters, and the g-h and g-h-k filters; a supplied saver is invoked once per epoch after both steps.",
 ['inputs', 'histories', 'configurations'],
 'every batch length, every per-epoch sequence of matrices and measurements, both orders',
 'tests compare one constant-model trajectory; varying per-epoch sequences are not covered',
 [K+'kalman_filter.py', K+'fading_memory.py', K+'UKF.py', 'filterpy/gh/gh_filter.py', 'filterpy/hinfinity/hinfinity_filter.py'],
 [('batch_filter', K+'kalman_filter.py'), ('batch_filter', K+'UKF.py'), ('batch_filter', 'filterpy/gh/gh_filter.py')],
 ['returned arrays', 'final filter state'])

prop('C07', 'Smoothers apply the Rauch-Tung-Striebel recursion',
 "Smoothing any filtered sequence returns the last epoch unchanged and, going backwards, exactly the Rauch-Tung-Striebel mean, covariance, gain and predicted covariance, using for the step from epoch k to k+1 the transition and noise the filter used to predict epoch k+1. "
 "The Kalman filter method, the procedural function and the unscented smoother (with its unscented moments) agree with this, and the input arrays are not modified.",
 ['inputs', 'histories', 'configurations'],
 'every sequence length, every per-epoch transition and noise matrix, every filtered sequence',
 'tests smooth one constant-model run and compare average errors',
 [K+'kalman_filter.py', K+'UKF.py'],
 [('rts_smoother (method and function)', K+'kalman_filter.py'), ('rts_smoother', K+'UKF.py')],
 ['returned arrays'])

prop('C08', 'Reported likelihood always describes the latest innovation',
 "After any update (other than a partial, one-block-at-a-time sequential update), the reported log-likelihood is the Gaussian log-density of the current innovation under the current innovation covariance, the likelihood is its exponential (never zero or below the smallest normal float), and the Mahalanobis distance is the square root of y' S^-1 y. "
 "Reading these values does not change the filter and a later update is never answered with values cached from an earlier one, for the Kalman, extended, unscented, cubature and fading-memory filters and the procedural update.",
 ['inputs', 'histories'],
 'every sequence of updates and reads, every innovation including ones whose density underflows',
 'cache staleness depends on the interleaving of reads and updates; tests read once per update at most',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'fading_memory.py', 'filterpy/stats/stats.py'],
 [('lazy log_likelihood/likelihood/mahalanobis properties', K+'kalman_filter.py'), ('logpdf', 'filterpy/stats/stats.py')],
 ['log_likelihood', 'likelihood', 'mahalanobis'],
 [('_log_likelihood/_likelihood/_mahalanobis', 'cache, None when stale', K+'kalman_filter.py')])

prop('C09', 'The square-root filter is equivalent to the Kalman filter',
 "For every prior, model, noise and measurement, the square-root filter's predict and update produce the same state, covariance, gain and innovation covariance as the ordinary Kalman filter. "
 "Its reported P, Q, R, prior and posterior covariances always equal the product of the factor it holds with its transpose, setting one of them is read back exactly, and a per-call noise factor affects only that call.",
 ['inputs', 'histories'],
 'all dimensions, all positive definite P, Q, R, all histories of predict and update',
 'one 2x2 constant-velocity trajectory is compared',
 [K+'square_root.py'], [('QR time and measurement update', K+'square_root.py')],
 ['x', 'P', 'K', 'S', 'SI', 'P_prior', 'P_post', 'Q', 'R'])

prop('C10', 'The information filter is equivalent to the Kalman filter',
 "For every invertible prior covariance and transition matrix, the information filter's predict and update produce the same state as the Kalman filter and an information matrix that is the inverse of the Kalman filter's covariance, with scalar or matrix inverse measurement noise. "
 "Recorded prior and posterior quantities equal the results of the latest predict and update.",
 ['inputs', 'histories'],
 'all dimensions and admissible models; no-information mode excluded',
 'compared on one constant-velocity model',
 [K+'information_filter.py'], [('update, predict in inverse-covariance form', K+'information_filter.py')],
 ['x', 'P_inv', 'P', 'K', 'x_prior', 'x_post', 'P_inv_prior', 'P_inv_post'])

prop('C11', 'Sequential, correlated and steady-state updates match the joint update',
 "Processing the components of a measurement with block-diagonal noise one block at a time gives the same state and covariance as one joint update, in any block sizes. "
 "The correlated-noise update is the optimal update for the given cross covariance and reduces to the ordinary update when it is zero; the steady-state update with a given gain moves the state by exactly that gain times the innovation and leaves covariance and gain unchanged.",
 ['inputs', 'configurations'],
 'all dimensions and block partitions, all priors and measurements, per-call R and H',
 'one 3-D example for sequential updates, one degenerate example for correlated updates',
 [K+'kalman_filter.py'], [('update_sequential, update_correlated, update_steadystate', K+'kalman_filter.py')],
 ['x', 'P', 'K', 'y', 'S', 'z'])

prop('C12', 'Sigma points reproduce mean and covariance exactly',
 "For every dimension, parameter setting, mean and positive definite covariance, the Merwe, Julier and simplex sigma points and the spherical-radial cubature points come with the advertised number of points, weights that sum to one, weighted mean equal to the given mean and weighted spread equal to the given covariance. "
 "A custom square root (with U'U = P) or subtraction function is honoured and scalar inputs are accepted for one-dimensional problems.",
 ['inputs', 'configurations'],
 'every n >= 1, every alpha, beta, kappa for which the scaling is non-singular, every mean and covariance',
 'tests check a few dimensions and parameter sets, mostly 1-D and 2-D',
 [K+'sigma_points.py', K+'CubatureKalmanFilter.py'],
 [('sigma_points, _compute_weights', K+'sigma_points.py'), ('spherical_radial_sigmas', K+'CubatureKalmanFilter.py')],
 ['returned points', 'Wm', 'Wc', 'num_sigmas()'])

prop('C13', 'Unscented and cubature filters are exact on their transform',
 "The unscented transform returns the weighted mean and weighted residual covariance plus noise, honouring custom mean and residual functions; the unscented and cubature filters propagate every sigma point through the given functions with the given time step and arguments and update with gain Pxz S^-1. "
 "For linear models both filters reproduce the Kalman filter's predict and update exactly, for any dimension and process noise.",
 ['inputs', 'configurations', 'programs'],
 'all user functions fx, hx, mean and residual functions, all sigma point parameters and dimensions',
 'tests use a few fixed models; custom functions only with trivial versions',
 [K+'UKF.py', K+'unscented_transform.py', K+'CubatureKalmanFilter.py', K+'sigma_points.py', 'filterpy/common/helpers.py'],
 [('predict, update, cross_variance, compute_process_sigmas', K+'UKF.py'), ('unscented_transform', K+'unscented_transform.py'), ('ckf_transform, predict, update', K+'CubatureKalmanFilter.py')],
 ['x', 'P', 'K', 'S', 'y', 'x_prior', 'P_prior', 'x_post', 'P_post'])

prop('C14', 'IMM keeps a proper mode distribution and moment-matched estimate',
 "For any filters, transition matrix with unit row sums and likelihoods, the mode probabilities after an update are non-negative, sum to one and are proportional to (predicted mode probability) x (that filter's likelihood), and the mixing probabilities of each target mode sum to one. "
 "Prediction restarts every filter from the mixture mean and covariance (including the spread of the means) formed with its mixing probabilities, and the reported estimate is always the probability-weighted mean and mixture covariance of the filters.",
 ['inputs', 'histories'],
 'every number of filters, every state dimension and layout, every history',
 'one trajectory with loose comparisons',
 [K+'IMM.py'], [('_compute_mixing_probabilities, _compute_state_estimate, predict, update', K+'IMM.py')],
 ['mu', 'cbar', 'omega', 'x', 'P', 'filters[i].x', 'filters[i].P', 'x_prior', 'x_post'])

prop('C15', 'MMAE weights filters by Bayes rule and mixes their moments',
 "After every update the model probabilities are the previous ones multiplied by each filter's likelihood and renormalised to sum to one; each filter has been updated with the same measurement and overrides. "
 "The bank's state is the probability-weighted mean of the filters' states and its covariance is the mixture covariance including the spread of the means.",
 ['inputs', 'histories'], 'every number of filters, dimension and history',
 'the only test runs the code without checking values',
 [K+'mmae.py'], [('update', K+'mmae.py')], ['p', 'x', 'P', 'x_post', 'P_post'])

prop('C16', 'Ensemble filter statistics match its ensemble',
 "After predict the reported state and covariance are the sample mean and (N-1)-normalised sample covariance of the ensemble, each member having been moved by the process function plus its own noise draw; after update each member has moved by K (z + its own measurement-noise draw - its predicted measurement) with K = Pxz Pzz^-1 formed from the sample moments. "
 "The reported state is the mean of the updated ensemble and the covariance is P - K S K', and a scalar or matrix R override affects only that call.",
 ['inputs', 'configurations'], 'every ensemble size, dimension, noise draw and user function',
 'tests are stochastic and loose',
 [K+'ensemble_kalman_filter.py', 'filterpy/common/helpers.py'], [('predict, update, initialize', K+'ensemble_kalman_filter.py')],
 ['sigmas', 'x', 'P', 'K', 'S'])

prop('C17', 'Fixed-lag smoother: filter-exact, batch equals recursive, bounded lag',
 "At every step the fixed-lag smoother's current state and covariance are exactly the Kalman filter's, including control inputs. "
 "Batch smoothing returns the same smoothed sequence as feeding the measurements one at a time, each step appends exactly one estimate, and only the N most recent estimates are ever revised.",
 ['inputs', 'histories'], 'every lag, sequence length, model and measurement sequence',
 'one model, one lag, compared within loose tolerance',
 [K+'fixed_lag_smoother.py'], [('smooth, smooth_batch', K+'fixed_lag_smoother.py')],
 ['x', 'P', 'xSmooth', 'returned arrays'])

prop('C18', 'g-h family filters follow their defining recurrences',
 "For every state, gain, time step and measurement (scalar or vector valued) the g-h, g-h-k and order-selectable filters perform the constant-velocity or constant-acceleration prediction followed by correction of each term by its gain times the residual, with per-call gains overriding only that call; the order-selectable filter agrees with the dedicated filters. "
 "A target that follows the filter's motion model exactly is tracked with zero residual, the gain-design formulas return their published values, and the variance reduction factors and bias error are those of the stationary filter.",
 ['inputs', 'configurations'], 'all states, gains, time steps and measurements',
 'tests run fixed sequences with fixed gains',
 ['filterpy/gh/gh_filter.py'], [('update', 'filterpy/gh/gh_filter.py'), ('gain design functions', 'filterpy/gh/gh_filter.py')],
 ['x', 'dx', 'ddx', 'y', 'predictions', 'return values'])

prop('C19', 'Recursive least squares equals the batch polynomial fit',
 "After any number n of measurements, the least-squares filter of order 0, 1 or 2 holds exactly the value and derivatives, at the last sample time, of the polynomial of that order minimising the sum of squared residuals over all n samples (once n exceeds the order). "
 "The recorded residual is the measurement minus the previous estimate carried one step ahead. Resetting restores the initial condition, and the reported standard deviations are finite and equal the published expressions.",
 ['inputs', 'histories'], 'every n, time step, measurement sequence, order 0..2',
 'tests compare a few short sequences with published tables',
 ['filterpy/leastsq/least_squares.py'], [('update, errors, reset', 'filterpy/leastsq/least_squares.py')], ['x', 'n', 'errors()'])

prop('C20', 'Fading-memory polynomial filter is the discounted least-squares fit',
 "For every beta in (0,1), time step and order 0, 1 or 2, the fading-memory filter's update preserves the normal equations of the infinite-memory exponentially discounted polynomial least-squares fit, so a signal that is a polynomial of the filter's order is tracked with zero residual. "
 "Its gains coincide with the critically damped g-h and g-h-k gains for the same parameter, and its steady-state variances and truncation errors are those of that fit.",
 ['inputs', 'histories'], 'every beta, dt, order, state and measurement sequence',
 'one test with fixed beta',
 ['filterpy/memory/fading_memory.py', 'filterpy/gh/gh_filter.py'], [('update and constructor', 'filterpy/memory/fading_memory.py')], ['x', 'P', 'e'])

prop('C21', 'Kinematic transition and process-noise matrices obey their laws',
 "For every time step and noise intensity the kinematic transition matrix is the matrix exponential of the integrator chain, so F(s+t) = F(s) F(t); the discrete white-noise matrix is the outer product of the input-gain vector scaled by the variance; the continuous white-noise matrix is the exact integral, so Q(s+t) = F(t) Q(s) F(t)' + Q(t). "
 "All are symmetric positive semidefinite, scale linearly with the intensity, and in multi-dimensional form are the block-diagonal or derivative-interleaved arrangement of identical copies; unsupported dimensions raise ValueError.",
 ['inputs', 'configurations'], 'all real dt and var, all supported dims, any block size and ordering',
 'tests compare a few numeric matrices',
 ['filterpy/common/discretization.py', 'filterpy/common/kinematic.py'],
 [('Q_discrete_white_noise, Q_continuous_white_noise, order_by_derivative', 'filterpy/common/discretization.py'), ('kinematic_state_transition, kinematic_kf', 'filterpy/common/kinematic.py')],
 ['returned matrices', 'kf.F'])

prop('C22', 'Continuous-to-discrete conversion solves the linear SDE',
 "For every continuous system matrix, noise input and time step, Van Loan discretisation and the linear-ODE discretisation return the transition matrix exp(F dt) and the process-noise integral of exp(F s) G G' exp(F s)' over the step (L Q L' in the second form), with the documented defaults for omitted arguments. "
 "The two methods agree with each other, and fourth-order Runge-Kutta integrates by the classical weighted four-slope formula.",
 ['inputs', 'configurations'], 'all dimensions, system matrices, noise inputs and time steps; all right-hand sides for Runge-Kutta',
 'tests compare one or two numeric examples',
 ['filterpy/common/discretization.py', 'filterpy/common/helpers.py'],
 [('van_loan_discretization, linear_ode_discretation', 'filterpy/common/discretization.py'), ('runge_kutta4', 'filterpy/common/helpers.py')], ['returned matrices'])

prop('C23', 'Particle resampling is in-range, complete and proportionally fair',
 "For every normalised weight vector (up to rounding) and every random draw, each resampling scheme returns exactly N indices, all within range, and never fails. "
 "Systematic and residual resampling select particle i at least floor(N w_i) times, systematic at most one more than that and stratified at most two away; every selected index is the one whose cumulative-weight interval contains its draw, and the residual scheme draws its remaining particles in proportion to the fractional parts of N w_i.",
 ['inputs', 'fault_sequences'], 'every N >= 1, weights and random draws',
 'there are no tests for resampling at all',
 ['filterpy/monte_carlo/resampling.py'], [('residual/stratified/systematic/multinomial resample', 'filterpy/monte_carlo/resampling.py')], ['returned indexes'])

prop('C24', 'Discrete Bayes filter conserves probability and applies Bayes rule',
 "Updating any prior with any likelihood (with positive total) yields a distribution that sums to one and is proportional to prior times likelihood, leaving the inputs untouched; normalising makes any positive-sum array sum to one. "
 "Predicting with wrap-around shifts the belief by the offset and convolves it circularly with the kernel: cell i receives kernel-weighted belief from the shifted cells, non-negativity is kept, and total probability is preserved whenever the kernel sums to one; in constant mode mass leaves only at the ends and is replaced by cval.",
 ['inputs'], 'every belief length, offset, kernel and likelihood',
 'one small test',
 ['filterpy/discrete_bayes/discrete_bayes.py'], [('normalize, update, predict', 'filterpy/discrete_bayes/discrete_bayes.py')], ['returned distributions'])

prop('C25', 'Gaussian algebra is exact',
 "Multiplying two Gaussians (scalar or multivariate) gives the mean and covariance of the normalised product density and, in the pdf form, the scale factor that makes the product identity exact pointwise; adding gives the sum's mean and variance. "
 "The Gaussian densities, log-densities, Mahalanobis distance, measurement likelihoods and normalised estimation error squared equal their defining formulas, and the interval probability is independent of the order of its end points.",
 ['inputs'], 'all means, positive (definite) variances, points and dimensions',
 'tests check some numeric values',
 ['filterpy/stats/stats.py'], [('mul, mul_pdf, add, multivariate_multiply, gaussian, multivariate_gaussian, logpdf, mahalanobis, log_likelihood, likelihood, NEES, norm_cdf', 'filterpy/stats/stats.py')], ['return values'])

prop('C26', 'Saver records a faithful, immutable history',
 "After k saves, the saver reports length k and holds for every recorded attribute and property of the filter exactly the k values they had at those moments; later changes to the filter, including in-place edits, never alter recorded entries, and saving never alters the filter. "
 "Ignored, private and callable attributes are excluded exactly as requested, and conversion to arrays preserves every value. Copying states between filters copies every common attribute (other than functions) deeply, and comparing two filters reports exactly the common public attributes that differ.",
 ['inputs', 'histories', 'configurations'], 'every filter, every number of saves, every option combination, every later mutation',
 'tests check lengths and a few shapes; aliasing is never tested',
 ['filterpy/common/helpers.py'], [('Saver', 'filterpy/common/helpers.py'), ('copy_states, compare_kf', 'filterpy/common/helpers.py')], ['saver attributes', '__len__', 'keys'])

prop('C27', 'Measurements and helper matrices are checked and exact',
 "The Kalman filter (update, update_correlated, update_steadystate, get_update, residual_of, and the procedural update and update_steadystate functions) accepts a measurement in every layout holding exactly the expected number of elements as one row or one column (or a plain number for one element), always interpreted as the same column of values, and any other shape raises ValueError leaving the estimate (state, covariance, gain, residual and their prior/posterior copies) untouched. "
 "The Kalman, square-root, information, fading-memory and ensemble filters and the multiple-model estimator reject non-positive dimensions at construction; the Kalman, extended, square-root, information and fading-memory filters start with a zero state, identity covariance, process and measurement noise and transition (the information filter's transition is set by the user), and measurement arrays of the declared dimensions. The interacting multiple model estimator rejects fewer than two filters and filters of different state dimensions, the multiple-model filter bank a number of probabilities that differs from the number of filters. "
 "The diagonal inverse and sum-of-outer-products helpers equal their defining formulas for all sizes, reject non-square input, and never modify their arguments.",
 ['inputs', 'configurations'], 'every dimension and layout of z, every array content',
 'tests try a few layouts for small dims',
 ['filterpy/common/helpers.py', K+'kalman_filter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py'], [('reshape_z, inv_diagonal, outer_product_sum', 'filterpy/common/helpers.py'), ('__init__', K+'kalman_filter.py')], ['return values', 'exceptions', 'initial attributes'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
