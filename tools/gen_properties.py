"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop('C01', 'Jump paths survive partitioning, re-joining and evaluation unchanged',
 'Cutting a piecewise-constant jump path at any increasing set of interior times and pasting the pieces back returns the same jump times, states and horizon, and re-cutting at the same times returns the same pieces; each piece starts at local time zero in the state the path occupies just after the cut, keeps its own length, and holds exactly the jumps that fall strictly inside it. Looking the path up at a time returns the state entered by the last jump at or before it and rejects times past the horizon, and time-occupancy fractions are the exact share of the horizon spent in each state.',
 ['inputs'], 'every jump path, every increasing vector of interior cut times (including cuts that coincide with jumps), every lookup time',
 'Doctests sample random paths with cuts that never tie with jumps; ties, empty cut sets and single-state paths are hit with probability zero.',
 ['ctbayes/mjplib/skeleton.py'],
 [('partition_skeleton/paste_partition/repartition_skeleton', 'ctbayes/mjplib/skeleton.py'), ('Skeleton.__call__', 'ctbayes/mjplib/skeleton.py'), ('est_stat', 'ctbayes/mjplib/skeleton.py')],
 ['partition pieces', 'pasted path', 'path lookup'])

prop('C02', 'Simulated jump paths are well formed and honour their conditioning',
 'Every simulated jump path starts at time zero, has strictly increasing jump times strictly inside its horizon and never jumps to the state it already occupies; a forward path starts in the requested state, and a bridge starts and ends in the requested states. Resampling a partition keeps every piece length and the states just before and just after every cut (the same state unless the path jumps exactly there), so the re-joined path is continuous in state across cuts and has the same horizon.',
 ['inputs', 'histories'], 'every generator matrix with positive off-diagonal rates, every horizon, endpoint pair, partition and every sequence of random draws',
 'Tests compare long-run occupancy on single long runs; they never look at endpoint states, short horizons, or virtual-jump removal for adversarial draws.',
 ['ctbayes/mjplib/skeleton.py'],
 [('sample_forwards/sample_backwards/sample_bridge', 'ctbayes/mjplib/skeleton.py'), ('mutate_partition/sample_partition', 'ctbayes/mjplib/skeleton.py')],
 ['sampled skeletons'])

prop('C03', 'Jump-process samplers use the exact transition mechanism of the generator',
 'Forward simulation draws, in each state, competing exponential clocks with that state\'s exit rates and moves to the state whose clock rings first. A bridge draws the number of candidate transitions by inverting the uniformised conditional distribution, draws intermediate states with the exact conditional transition probabilities (non-negative, summing to one) and candidate times uniformly over the horizon, and a backward draw picks its start state proportionally to the probability of reaching the end state. Resampling a partition redraws every piece by these mechanisms given its end states alone. The stationary distribution is the probability vector annihilated by the generator. Trial rate matrices are generators: positive rates off the diagonal, rows summing to zero.',
 ['inputs', 'histories'], 'every generator matrix (2-3 states), horizon, endpoint pair and draw sequence',
 'Empirical-frequency doctests use one random generator and a loose tolerance; conditional choice probabilities and the transition-count law on short horizons are never observed.',
 ['ctbayes/mjplib/skeleton.py'],
 [('sample_forwards', 'ctbayes/mjplib/skeleton.py'), ('sample_bridge.sample_n_trans', 'ctbayes/mjplib/skeleton.py'), ('get_stat', 'ctbayes/mjplib/skeleton.py'), ('sample_backwards', 'ctbayes/mjplib/skeleton.py'), ('sample_trial_generator', 'ctbayes/mjplib/skeleton.py')],
 ['draw parameters', 'sampled skeletons'])

prop('C04', 'Conjugate inference for jump rates is exact on every fully observed path',
 'Updating the gamma prior with an observed path adds the number of jumps from i to j to shape (i,j) and the total time spent in state i, including the final uncompleted sojourn up to the horizon, to every rate in row i. The path log-likelihood is the sum of log rates of the observed jumps minus total exit rate times time in each state, so posterior minus prior log-density differs from the log-likelihood only by a constant in the rates. Posterior mean, mode and sampled rate matrices have rows summing to zero with the gamma mean, mode or draw off the diagonal.',
 ['inputs'], 'every fully observed path, rate matrix and prior hyperparameters',
 'The single doctest checks asymptotic concentration with tolerance 0.1 on an extremely long path, where losing the last sojourn or a prior count is invisible.',
 ['ctbayes/mjplib/inference.py'],
 [('update', 'ctbayes/mjplib/inference.py'), ('eval_loglik/eval_logprior', 'ctbayes/mjplib/inference.py'), ('get_ev/get_mode/sample_param', 'ctbayes/mjplib/inference.py')],
 ['returned arrays'])

prop('C05', 'Poisson point clouds stay inside their box and follow the exact law',
 'A Poisson cloud has a Poisson number of points with mean intensity times box volume, each inside the box, uniformly placed and ordered by the first coordinate. Drawing the same cloud in batches yields exactly that many points in total, in batches of the requested size except possibly the last, with the first coordinate increasing within and across batches, never leaving the box, and distributed as the order statistics of uniforms.',
 ['inputs', 'histories'], 'every intensity, box of dimension 1-3, batch size and draw sequence',
 'The doctest pools 10^4 points from one box and runs a marginal KS test; out-of-box points, ordering across batches and the joint order-statistic law are not examined.',
 ['ctbayes/mjplib/skeleton.py'],
 [('sample_ppp', 'ctbayes/mjplib/skeleton.py'), ('sample_batch_ppp', 'ctbayes/mjplib/skeleton.py')],
 ['yielded batches', 'draw parameters'])

prop('C06', 'Two-coin Bernoulli factories return heads with exactly the Barker odds',
 'Each round picks coin 1 with probability w1/(w1+w2) from log weights, flips the picked coin once, and stops on success returning which coin succeeded together with that coin\'s proposal; so without an escape heads has odds w1*p1 : w2*p2. After a failed flip the procedure escapes with the configured probability, returning tails with the escape flag set and the retained state (the supplied one until coin 2 is flipped, then the one coin 2 returned last, so nothing revealed by failed flips is forgotten), and otherwise repeats; when the proposal budget runs out it raises the budget error rather than returning an answer.',
 ['inputs', 'histories'], 'all log weights (finite or minus infinity on one side), coin outcomes, portkey probabilities, budgets and draw sequences',
 'One binomial test at one weight pair; escapes, budgets, the jointly driven variant and returned proposals are untested.',
 ['ctbayes/misc/bfactories.py', 'ctbayes/misc/exceptions.py'],
 [('sample_twocoin', 'ctbayes/misc/bfactories.py'), ('sample_twocoin_joint', 'ctbayes/misc/bfactories.py')],
 ['returned triples', 'coin calls'])

prop('C07', 'Brownian-bridge minimum: distribution, quantile and joint time law agree',
 'The distribution function of a Brownian-bridge minimum is 1 at the lower endpoint, is exp(-2(x0-m)(xT-m)/T) below it, and renormalises correctly to a truncation interval; the quantile function is its exact inverse and stays inside the truncation interval. Sampling a minimum value and its time returns a value below both endpoints, a time strictly inside the horizon, and given the value draws the time from the exact two-component inverse-Gaussian mixture; the seeded variant is the same map evaluated at the supplied uniforms and squared normal.',
 ['inputs', 'histories'], 'all horizons, endpoints, truncation intervals, probabilities and draws',
 'Doctests check four edge values and a two-sample test against a discretisation at one random endpoint pair; truncated intervals and the mixture weights are not checked.',
 ['ctbayes/sdelib/hitting.py', 'ctbayes/sdelib/transforms.py'],
 [('cdf_brownbr_min/ppf_brownbr_min', 'ctbayes/sdelib/hitting.py'), ('sample_brownbr_min/sample_layerbr_min', 'ctbayes/sdelib/hitting.py'), ('gen_seeded_brownbr_min', 'ctbayes/sdelib/transforms.py')],
 ['returned values', 'draw parameters'])

prop('C08', 'Escape decisions compare the draw with the exact alternating series',
 'Escape decisions for Brownian and Bessel(3) bridges answer yes exactly when the uniform draw lies below a probability bracketed by consecutive partial sums of the exact alternating series, deciding only once a bracket excludes the draw; levels at or below an endpoint always escape and a level above the certified outer bound never does. The terms of the unbounded series equal the reflection-principle terms, the positive-start Bessel series is the two-sided Brownian series conditioned on staying positive, and the bounded series is the conditional probability given the outer bound.',
 ['inputs', 'histories'], 'all horizons, endpoints, levels, outer bounds and draws, for the first several series terms',
 'Doctests compare empirical frequencies at one level; a wrong term or a reversed bracket is masked because later terms are tiny.',
 ['ctbayes/sdelib/hitting.py'],
 [('series_brownbr_esc/series_bessel3br_esc', 'ctbayes/sdelib/hitting.py'), ('sample_brownbr_esc/sample_bessel3br_esc', 'ctbayes/sdelib/hitting.py')],
 ['series terms', 'decisions'])

prop('C09', 'Layer edges are nested, contain the endpoints and respect the state bounds',
 'Layer zero is exactly the endpoint interval; every later layer strictly contains the previous one, stays within the state bounds and places its two edges at the same exit probability. The sampled layer is the first one whose two-sided escape decision for the shared draw is negative. Anchored draws return sectors lying between consecutive layers, a minimum inside the lower sector, a time strictly inside the horizon, and bounds that enclose both endpoints. Raw bridge proposals are anchored on the drawn side, attain their tight bound, and have a certified range that holds the proposal and stays inside the state bounds; seeds proposed in the normalised coordinates of a bounded diffusion use the widest constant bounds whose denormalised path stays in the state space.',
 ['inputs', 'histories'], 'all horizons, endpoints, one- or two-sided state bounds, layer indices and draws',
 'Doctests check two edge cases of the edges and layer frequencies for one draw; nesting and containment under one-sided bounds are not checked.',
 ['ctbayes/sdelib/layers.py', 'ctbayes/ea3lib/skeleton.py'],
 [('sample_raw_skeleton', 'ctbayes/ea3lib/skeleton.py'), ('sample_raw_seed', 'ctbayes/ea3lib/seed.py'), ('compute_edges', 'ctbayes/sdelib/layers.py'), ('sample_layer/sample_anchor/sample_edges', 'ctbayes/sdelib/layers.py')],
 ['edges', 'sectors'])

prop('C10', 'Interpolating a bounded path never moves it, leaves its bounds or loses its hits',
 'Interpolating a layered path at new times keeps every existing (time, value) pair, returns one value per requested time in time order equal to the stored path there, draws nothing for times already present, and keeps every value on the certified side of both bounds. Per-segment hit information stays aligned with the refined segments and a segment known to hit keeps at least one hitting sub-segment. Mirroring a path in time and space is an involution that preserves its time grid, endpoints and certified range, and paths anchored from above interpolate as the mirror image of paths anchored from below.',
 ['inputs', 'histories'], 'all layered paths with up to several segments, all sorted request times (including already-present ones) and draws',
 'Existing tests compare one interpolated marginal distribution; repeated interpolation, present times, hit bookkeeping and anchored-from-above paths are not checked.',
 ['ctbayes/sdelib/interpolators.py', 'ctbayes/sdelib/paths.py', 'ctbayes/ea3lib/skeleton.py', 'ctbayes/sdelib/transforms.py'],
 [('fill_wiener_outer/fill_wiener_inner', 'ctbayes/sdelib/interpolators.py'), ('sample_layerbr/propose_layerbr/propose_layerbr_edge', 'ctbayes/sdelib/paths.py'), ('interpolate_skeleton/flip_skeleton', 'ctbayes/ea3lib/skeleton.py'), ('reverse/reflect', 'ctbayes/sdelib/transforms.py')],
 ['interpolated skeletons'])

prop('C11', 'Gaussian path samplers have exactly the stated means and covariances',
 'Wiener and Brownian-bridge draws are affine in independent standard normals, with mean and covariance equal to the closed-form moment functions for every time grid, start, end and drift; Bessel processes and bridges are Euclidean norms of such vectors. The conditional Gaussian moments equal the exact conditioning of the unconditional ones on the last coordinate, and conditioning Wiener moments on the end point gives the Brownian-bridge moments. Interpolating a Wiener vector at new times keeps every known value and draws, in each coordinate, independent Brownian bridges between neighbouring known values.',
 ['inputs'], 'all time grids of a few points, horizons, endpoints, drifts and dimensions',
 'Doctests run KS tests at one random configuration with significance 1%; covariance errors between non-adjacent times or for unusual drifts can pass.',
 ['ctbayes/sdelib/paths.py', 'ctbayes/sdelib/moments.py', 'ctbayes/sdelib/interpolators.py'],
 [('sample_wiener/sample_brownbr/sample_bessel/sample_besselbr', 'ctbayes/sdelib/paths.py'), ('moments_wiener/moments_brownbr/moments_gaussian_bridge', 'ctbayes/sdelib/moments.py'), ('fill_wiener_vector', 'ctbayes/sdelib/interpolators.py')],
 ['sampled values as functions of the normals'])

prop('C12', 'Normalised bridge coordinates are an exact change of variables',
 'For every model the maps between a bridge of the reduced diffusion and its unit-time zero-ended Brownian coordinates are mutual inverses, send the two endpoints to exactly zero and back, map time linearly onto the unit interval, and scale deviations from the straight line between the endpoints by the square root of the duration times the local volatility. Each observation interval gets the maps built from its own duration, endpoints and regime.',
 ['inputs'], 'all parameters, durations, endpoints, regimes, times and values',
 'Pivot tests check endpoint reproduction on one simulated data set per model.',
 ['ctbayes/ito/static.py', 'ctbayes/switching/static.py', 'ctbayes/sdelib/transforms.py'],
 [('norm_rsde/denorm_rsde/gen_normops', 'ctbayes/ito/static.py'), ('norm_rsde/denorm_rsde/gen_normops', 'ctbayes/switching/static.py'), ('pivot_brownbr', 'ctbayes/sdelib/transforms.py')],
 ['map values'])

prop('C13', 'Each model\'s drift, potential, derivative and reduction are mutually consistent',
 'In every shipped model the reduction to unit (or regime) volatility and its inverse cancel and the reported derivative is its derivative; the drift potential differentiates to the drift and the drift derivative is the derivative of the drift. The discrepancy function is half of squared drift over volatility plus drift derivative, and the biased log-likelihood is exactly the Brownian increment log-density plus the log-Jacobian plus the potential difference (scaled by squared volatility per regime), including its split into a regime-restricted part and its remainder. Scalar and vectorised regime labels give the same values.',
 ['inputs'], 'all parameters in the model domain, states, regimes, time grids and regime sequences',
 'Tests evaluate transition estimates for two Ito models at one parameter value; the other regime-switching models are never evaluated.',
 ['ctbayes/ito/models/ou.py', 'ctbayes/ito/models/cir.py', 'ctbayes/switching/models/ou.py', 'ctbayes/switching/models/ou2.py', 'ctbayes/switching/models/ou3.py', 'ctbayes/ito/static.py', 'ctbayes/switching/static.py'],
 [('reduce/dereduce/dv_reduce', 'models'), ('eval_drift/sx_eval_drift/dx_eval_drift', 'models'), ('eval_disc/eval_biased_log_lik', 'ctbayes/ito/static.py, ctbayes/switching/static.py')],
 ['function values'])

prop('C14', 'Discrepancy bounds enclose the discrepancy over the whole certified range',
 'For every model, over any interval inside the state space the reported lower and upper discrepancy bounds enclose the discrepancy at every point of the interval, the two bounds are attained, and the reported global infimum lies below the discrepancy everywhere; over an interval reaching out of a bounded state space they still hold on the part inside. The per-interval bounds of a bridge computed from its certified range enclose the discrepancy at every time and every value the bridge can take inside that range.',
 ['inputs'], 'all parameters in the model domain, intervals, states, bridges and times',
 'No test evaluates the bounds directly; a bound violated on part of the parameter space silently biases exact sampling.',
 ['ctbayes/ito/models/ou.py', 'ctbayes/ito/models/cir.py', 'ctbayes/switching/models/ou.py', 'ctbayes/switching/models/ou2.py', 'ctbayes/switching/models/ou3.py', 'ctbayes/ea3lib/seed.py'],
 [('eval_bounds_disc/eval_inf_disc', 'models'), ('bound_disc_path', 'ctbayes/ea3lib/seed.py')],
 ['bounds'])

prop('C15', 'Parameter-move intensities dominate the discrepancy change along the bridge',
 'For any two parameter values of a model and any bridge with a certified range, the reported gradient bounds dominate the partial derivatives of the discrepancy (at fixed normalised path) for all parameters between them, so the intensity built from them is at least the absolute change in discrepancy at every time and every value in the range. Only the coordinates that actually change contribute, and the resulting acceptance flips never trip their domination check.',
 ['inputs'], 'all parameter pairs, durations, endpoints, certified ranges and normalised values',
 'The bound is only exercised indirectly by an assertion inside stochastic runs, for data where it is slack.',
 ['ctbayes/ito/models/ou.py', 'ctbayes/switching/models/ou.py', 'ctbayes/switching/models/ou2.py', 'ctbayes/switching/models/ou3.py', 'ctbayes/ito/mcmc.py', 'ctbayes/switching/mcmc.py'],
 [('eval_bounds_grad/eval_grad', 'models'), ('flip_param_coin', 'ctbayes/ito/mcmc.py, ctbayes/switching/mcmc.py')],
 ['bounds', 'intensity'])

prop('C16', 'Poisson thinning coins accept exactly when no point falls under the discrepancy',
 'An exact-acceptance coin draws a unit-rate Poisson cloud over the horizon by the gap between the upper bound and the level it subtracts, pairs every mark with the path value at the mark\'s own time, and succeeds if and only if no mark lies below the discrepancy minus that level; it stops at the first failing batch and returns the path with every revealed point. The two-parameter coin uses the positive part of the discrepancy change in the requested direction; the unbiased estimator weighs each point by the exact log ratio; and the deterministic lower-bound integral is minus duration times lower bound.',
 ['inputs', 'histories'], 'all paths, clouds of a few points, batch sizes, discrepancy values and bounds',
 'Acceptance is a Monte Carlo event; tests check only downstream path marginals, which do not see mis-paired marks, wrong levels or dropped batches.',
 ['ctbayes/ea3lib/skeleton.py', 'ctbayes/ea3lib/seed.py'],
 [('flip_poisson_coin/est_poisson_coin', 'ctbayes/ea3lib/skeleton.py'), ('flip_poisson_coin/flip_dual_coin/est_poisson_coin/integrate_disc_bound/sample_bridge', 'ctbayes/ea3lib/seed.py')],
 ['coin outcomes', 'estimates'])

prop('C17', 'MCMC updates accept with the exact posterior odds and keep rejected states',
 'Every parameter, path and regime update targets the posterior: the total log odds put into its accept/reject stages equals the prior difference plus the augmented likelihood difference plus the proposal correction, whether or not the early-rejection stage is enabled, and each stage passes its proposal with weight prime/(prime+current). On rejection or escape the parameter, regime path and data-bearing values are returned unchanged, on acceptance exactly the proposed ones are returned; each regime\'s parameter move only uses and replaces the path pieces spent in that regime, and all other entries stay as they were.',
 ['inputs', 'histories'], 'all current/proposed states, weights, regimes, coin outcomes and draw sequences, for both settings of the early-rejection switch',
 'Tests run a handful of chain steps and check a path marginal; a missing likelihood term changes the posterior without failing anything.',
 ['ctbayes/ito/mcmc.py', 'ctbayes/switching/mcmc.py'],
 [('update_params/flip_param_precoin/eval_param_weight', 'ctbayes/ito/mcmc.py'), ('update_sde/update_sde_bridge', 'ctbayes/ito/mcmc.py'), ('update_params/update_params_section', 'ctbayes/switching/mcmc.py'), ('update_hidden/update_hidden_section', 'ctbayes/switching/mcmc.py')],
 ['accepted states', 'weights'])

prop('C18', 'Augmented regime-switching states always stay consistent with the data',
 'Augmenting a regime path with observations yields a time grid containing every observation time and every regime change exactly once, the observed value at each observation time, the regime holding just after each grid time, and one path piece per grid interval. Splitting such a state at conditioning times and pasting the parts returns it unchanged with the pieces in order, mixed acceptance across parts keeps every observation, and dropping the non-jump grid points recovers exactly the regime path.',
 ['inputs', 'histories'], 'all regime paths, observation grids, split times chosen among grid points and per-part accept/reject outcomes',
 'The only switching tests check endpoint reproduction of a single augmentation.',
 ['ctbayes/switching/static.py', 'ctbayes/switching/mcmc.py', 'ctbayes/switching/types.py'],
 [('sample_aug/sample_anchors', 'ctbayes/switching/static.py'), ('split_hidden/paste_hidden', 'ctbayes/switching/mcmc.py'), ('prune_anchorage', 'ctbayes/switching/types.py')],
 ['augmented states'])

prop('C19', 'EM steps maximise the stated objective within the buffered bounds',
 'The rate-matrix step returns the stationary point of the mean complete-data log posterior over particles with rows summing to zero, and reports that objective; the parameter step hands the optimiser the negated mean over particles of path log-likelihood estimate plus prior, from the current value and within bounds shrunk by the configured buffer but never past their midpoint, and reports the optimum it returned. Path log-likelihood estimates are the biased log-likelihood minus duration times the average discrepancy at the support points of each piece (only pieces in the selected regime when restricted); the unbiased estimates add to the log-likelihood the integrated lower bounds and the Poisson estimators of the pieces. Particles are kept every configured number of chain steps starting with the first, each iteration starts from the optimum of the one before, and iteration stops once successive objectives differ by less than the tolerance. The model-level maximisers run this on the model\'s own functions, the data, prior and settings they are given.',
 ['inputs', 'histories'], 'all particles, prior values, bounds, buffers, thinning settings and objective sequences',
 'Tests check that transition estimates are close to truth for two models; step wiring, buffers, and stopping are untested.',
 ['ctbayes/ito/mcem.py', 'ctbayes/switching/mcem.py'],
 [('update_generator', 'ctbayes/switching/mcem.py'), ('update_param/update_objective/buffer_bounds', 'ctbayes/ito/mcem.py, ctbayes/switching/mcem.py'), ('est_log_aug_lik/est_aug_lik', 'ctbayes/ito/mcem.py, ctbayes/switching/mcem.py'), ('maximize_posterior/update_particles', 'ctbayes/ito/mcem.py, ctbayes/switching/mcem.py')],
 ['returned values', 'optimiser inputs'])

prop('C20', 'Adaptive proposals: support, exact Jacobian corrections, scheduled adaptation',
 'Proposals for parameters with one finite bound stay inside it (parameters with none or two are proposed on their own scale); the map to the real line and back is an exact inverse and the reported forward and backward corrections are its log-Jacobians at the proposed and current point. Running mean and covariance updates reproduce the batch mean and sample covariance. The proposal scale changes only at the scheduled times, moving up when the recent acceptance rate (parameters: the mean report since the last change; regimes: the latest report) exceeds the target and down when it falls short, with a decaying learning rate; the regime proposal conditions on interior observation times only.',
 ['inputs', 'histories'], 'all states, bounds, draws, acceptance histories and schedules of bounded length',
 'No test touches the adaptive samplers beyond import.',
 ['ctbayes/misc/adapt.py'],
 [('transform_to_reals/transform_to_const', 'ctbayes/misc/adapt.py'), ('seq_update_normal', 'ctbayes/misc/adapt.py'), ('MyopicRwSampler/MyopicMvRwSampler/MyopicMjpSampler', 'ctbayes/misc/adapt.py')],
 ['proposals', 'scales'])

prop('C21', 'Every random draw comes from the generator the caller supplied',
 'With a supplied random generator, every sampler, interpolation, coin, update and inference step draws only from that generator or generators spawned from its seed, never from a default or global source, so equal seeds give equal results, whatever was computed before. Work farmed out to parallel workers uses one distinct spawned generator per task.',
 ['inputs', 'histories', 'configurations'], 'every public sampling entry point and every path through it within the bounds',
 'No test runs anything twice with the same seed; a stray default generator is statistically invisible.',
 ['ctbayes'],
 [('ome parameters', 'all modules'), ('_seed_seq.spawn', 'ctbayes/ito/mcmc.py, ctbayes/switching/mcmc.py, ctbayes/ito/mcem.py, ctbayes/switching/mcem.py')],
 ['draw sources'])

prop('C22', 'Adaptive rejection hulls bound the target and the envelope is inverted exactly',
 'For a concave log-target the piecewise-linear upper hull built from tangents lies above the target and the chord hull below it at every point of the domain, the hull breakpoints are the tangent intersections, and inverting the envelope at a uniform draw returns the point inside the domain whose envelope mass equals the draw. Default hull points lie inside the domain on either side of the reported mode. A candidate is emitted exactly when the log of the test uniform is below target minus upper hull, and a rejected candidate is added to the hull in sorted order with its own value and slope.',
 ['inputs', 'histories'], 'all concave targets (quadratic and log-linear ones in closed form), hull points (2-3), domains and draws',
 'Doctests check two hull values and one goodness-of-fit; the bracketing, degenerate segments and refinement order are not observed.',
 ['ctbayes/misc/ars.py'],
 [('gen_upper/eval_upper/eval_lower/sample_envelope/sample', 'ctbayes/misc/ars.py')],
 ['hull values', 'emitted draws'])

prop('C23', 'The Euler reference simulator applies the Euler recursion on an aligned grid',
 'The Euler reference simulator returns one state per returned time, starts every draw at the initial state at time zero, and each next state is the previous one plus drift times step plus volatility times an independent normal increment with variance equal to the step.',
 ['inputs'], 'all step sizes dividing the horizon into a few steps, initial states, drift and volatility values',
 'The doctest checks only the terminal distribution with KS.',
 ['ctbayes/misc/testing.py'],
 [('euler_simulate', 'ctbayes/misc/testing.py')],
 ['trajectory'])

prop('C24', 'Exact path simulation accepts a whole proposal by its Poisson coin, and only then',
 'A path simulated without conditioning is the first proposal whose Poisson coin passes: every proposal moves from the initial state towards a fresh draw of the end point sampler, the coin compares the normalised discrepancy with the marks up to the gap between the layered upper bound and the global centre over the horizon, and rejected proposals leave no trace in the next. After the configured number of consecutive failures the budget error is raised instead of a path. The model-level simulator reports, on the data scale, one value per requested time of such a path, starting at the given state and ending on the given end point; an end point that is not given is drawn in proportion to the exponential of drift potential minus squared distance over twice the duration.',
 ['inputs', 'histories'], 'all coin outcomes, proposals up to the configured budget, initial states, parameters and end point candidates',
 'Tests compare a simulated transition density with a reference by a goodness-of-fit test, on one parameter value per model.',
 ['ctbayes/ea3lib/skeleton.py', 'ctbayes/ito/static.py'],
 [('sample_skeleton', 'ctbayes/ea3lib/skeleton.py'), ('sample_sde/sample_conv_endpt', 'ctbayes/ito/static.py')],
 ['simulated paths', 'budget errors'])

prop('C25', 'Posterior chains compose their sweeps from the states they report',
 'A posterior sampler is one Markov chain over its reported states. It starts from the model\'s initial parameters with an augmentation drawn under them (regime-switching: under the prior mean rates, with a regime path simulated from those rates). Every sweep then refreshes, each given the newest value of the others, the rate matrix (given the current regimes), the parameters (given the current path pieces) and the path pieces with the regimes (given the new parameters and rates), and reports exactly the state the next sweep starts from, without later sweeps altering it. A chain resumed from a reported state continues as if it had not been interrupted. The model-level samplers run this chain with the model\'s own functions, the data, prior settings and tuning settings they are given.',
 ['inputs', 'histories', 'configurations'], 'all initial parameters, weights, proposals, accept/reject outcomes and tuning settings, over 1-3 sweeps',
 'Tests compare long-run summaries of one chain against generous tolerances; a sweep that starts from a stale path or drops a tuning setting still looks plausible.',
 ['ctbayes/ito/mcmc.py', 'ctbayes/switching/mcmc.py', 'ctbayes/ito/static.py', 'ctbayes/switching/static.py'],
 [('sample_posterior/update_joint', 'ctbayes/ito/mcmc.py'), ('sample_posterior/resume_sampling/update_joint', 'ctbayes/switching/mcmc.py'), ('sample_posterior', 'ctbayes/ito/static.py, ctbayes/switching/static.py')],
 ['reported states'])

prop('C26', 'Rejection samplers return their first accepted proposal or report an exhausted budget',
 'A rejection sampler given a budget of n proposals behaves exactly like one given a single proposal and run n times over: it returns the first proposal that is accepted, unaltered, after drawing nothing but that proposal and the rejected ones before it, and it raises the budget error exactly when all n proposals are rejected (or none is allowed), never returning a rejected proposal or a silent placeholder. This holds for layered minima, layers, anchors, layered bridges with or without a required hit, and bridge edges.',
 ['inputs', 'histories'], 'all draws and acceptance outcomes for budgets of 0 to 2 (thorough 3) proposals at fixed geometries',
 'Budgets are hard to exhaust by chance, so tests never reach the raising branches or the second proposal on purpose.',
 ['ctbayes/sdelib/hitting.py', 'ctbayes/sdelib/layers.py', 'ctbayes/sdelib/paths.py'],
 [('sample_layerbr_min', 'ctbayes/sdelib/hitting.py'), ('sample_layer/sample_edges', 'ctbayes/sdelib/layers.py'), ('sample_layerbr/propose_layerbr_edge', 'ctbayes/sdelib/paths.py')],
 ['returned values', 'budget errors'])

prop('C27', 'Shipped models are the named diffusions under their stated priors',
 'In the shipped models the drift and reduction describe the process they are named after in their parameters: Ornstein-Uhlenbeck with mean reversion rate beta towards zero and volatility sigma; Cox-Ingersoll-Ross with drift beta (mu - v) and volatility sigma sqrt(v); regime-switching Ornstein-Uhlenbeck with, in each regime, (rate, volatility) equal to (a, 1/b), (a, a/b) and (a b, a) for parameters (a, b) of ou, ou2 and ou3. The log prior is, up to a constant, the sum over regimes of the log densities of a log-normal first parameter and a log-normal squared second parameter with the given scales (Cox-Ingersoll-Ross: exponential beta and mu, inverse gamma(1, 1) squared sigma), and minus infinity whenever any parameter is negative. Default initial parameters lie strictly inside the default bounds, which admit positive values only.',
 ['inputs', 'configurations'], 'all positive parameters, states, regimes and prior scales; all sign patterns',
 'Tests run two of the five models at one parameter value and never evaluate a prior; a mis-scaled prior only biases posterior summaries.',
 ['ctbayes/ito/models/ou.py', 'ctbayes/ito/models/cir.py', 'ctbayes/switching/models/ou.py', 'ctbayes/switching/models/ou2.py', 'ctbayes/switching/models/ou3.py'],
 [('eval_drift/eval_vol/reduce', 'models'), ('eval_log_prior', 'models'), ('init_thi/bounds_thi', 'models')],
 ['function values'])

prop('C28', 'Standard errors invert the observed information of the particles',
 'The standard error matrix of a parameter block is the inverse of the observed information of the augmented data: minus the average over particles of the second derivatives of the complete-data log posterior at the given parameters, minus the sample covariance of its gradients between particles (for regime-switching models, of the terms and the parameters of one regime at a time). It is withheld exactly when some resulting variance is not positive or a parameter lies on the edge of the buffered search region.',
 ['inputs'], 'all parameters, particles and polynomial log posteriors with non-singular information',
 'Not covered by any test.',
 ['ctbayes/ito/mcem.py', 'ctbayes/switching/mcem.py'],
 [('est_se', 'ctbayes/ito/mcem.py, ctbayes/switching/mcem.py')],
 ['returned matrices'])

prop('C29', 'Path values seen by an acceptance coin stay part of the path',
 'Whatever an acceptance coin reveals of a path is never forgotten: in every parameter, path and regime update each coin looks at the path as revealed so far, by earlier rounds and earlier coins, and the piece that the update returns contains all values ever revealed of it, whether the move was accepted, rejected or escaped from, together with the values it had before; pieces of other regimes and proposals contribute nothing to it.',
 ['inputs', 'histories'], 'all acceptance outcomes, numbers and times of marks over up to two rounds of coins, for every update',
 'A chain that re-draws what it has already looked at is biased by an amount no statistical test in the suite can see.',
 ['ctbayes/ito/mcmc.py', 'ctbayes/switching/mcmc.py', 'ctbayes/misc/bfactories.py', 'ctbayes/ea3lib/seed.py'],
 [('update_params/update_sde', 'ctbayes/ito/mcmc.py'), ('update_params/update_hidden', 'ctbayes/switching/mcmc.py'), ('sample_twocoin/sample_twocoin_joint', 'ctbayes/misc/bfactories.py'), ('flip_poisson_coin/flip_dual_coin', 'ctbayes/ea3lib/seed.py')],
 ['returned path pieces'])

prop('C30', 'Calls leave arguments, earlier results and later calls unaffected',
 'Functions and chains do not alter the arrays, lists and structures they are given (data, parameters, rate matrices, priors, skeletons, path pieces), and what a chain, coin or maximiser has reported stays as it was when later iterations run, so traces can be collected and inputs reused. Apart from the adaptive samplers and iterators, which evolve by design, nothing is remembered between calls that changes a result: the same arguments and draws give the same results whatever was computed before.',
 ['inputs', 'histories'], 'every call made by the checks of the other properties, with their inputs, draws and paths; earlier calls with equal, partly different and wholly different inputs',
 'Each test looks at results once, directly after a single call on fresh inputs.',
 ['ctbayes'],
 [('all functions', 'all modules'), ('sample_posterior', 'ctbayes/ito/mcmc.py, ctbayes/switching/mcmc.py'), ('maximize_posterior', 'ctbayes/ito/mcem.py, ctbayes/switching/mcem.py')],
 ['arguments after the call', 'earlier results', 'results of repeated calls'])

pathlib.Path('/verif/properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), max(len(p['title']) for p in P))
