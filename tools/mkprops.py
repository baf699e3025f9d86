#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Reparameterisation is a bijection between the prior box and R^n",
  "For every mix of unbounded, lower-bounded, upper-bounded and doubly bounded parameters (bounds that are omitted, infinite or NaN mean unbounded), for both the probit and the logit transform, and with rescaling off, diagonal or full-covariance, mapping points strictly inside the bounds to unconstrained space and back returns them, and mapping any finite unconstrained point out and back returns it. "
  "Every point produced by the inverse map lies within the bounds. Rows are transformed independently of each other and the caller's arrays are not modified.",
  ["inputs", "configurations"], "all dimensions, bound kinds per coordinate, transforms, rescaling modes, batch sizes and points",
  "tests/test_scaler.py uses ten identical coordinates of one bound kind at a time, diagonal probit only, one seed; mixed bounds, logit, full covariance and u->x->u are never exercised",
  ["pocomc/scaler.py"], [("Reparameterize.forward/inverse and the per-kind transforms", "pocomc/scaler.py"), ("_create_masks", "pocomc/scaler.py")],
  [("low/high/mask_*", "bounds and the partition of coordinates by bound kind", "Reparameterize.__init__"), ("mu/sigma/L", "rescaling learnt by fit", "Reparameterize.fit")],
  ["Reparameterize.forward", "Reparameterize.inverse"])

p("C02", "The log-Jacobian reported with an inverse map is its true derivative",
  "The log-determinant returned together with every mapped point equals the logarithm of the absolute determinant of the derivative of that map at that point, summed over all coordinates and including the rescaling, for every bound kind, transform and rescaling mode.",
  ["inputs", "configurations"], "all configurations and all finite unconstrained points",
  "no test looks at the log-determinant of the reparameterisation at all; it enters every acceptance ratio and evidence estimate",
  ["pocomc/scaler.py"], [("_inverse, _inverse_affine, _inverse_left/right/both/none", "pocomc/scaler.py")], (), ["Reparameterize.inverse"])

p("C03", "Periodic wrapping and reflection return the equivalent in-range point",
  "Applying the boundary conditions maps every finite value of a periodic parameter to a value inside its bounds that differs from it by a whole number of periods, and every finite value of a reflective parameter to the in-range value it has after unfolding by reflections at the two bounds, however far outside it started. "
  "Values already in range, all other parameters and the caller's array are left untouched.",
  ["inputs", "configurations"], "all finite values, finite bounds low<high, sets of periodic and reflective parameters, batch shapes",
  "no test applies boundary conditions",
  ["pocomc/scaler.py"], [("apply_boundary_conditions_x and its periodic/reflective loops", "pocomc/scaler.py")], (), ["Reparameterize.apply_boundary_conditions_x"])

p("C04", "Data outside the parameter bounds are rejected, data inside accepted",
  "Fitting the reparameterisation to, or transforming with input checking on, an array that has any coordinate outside its own bounds (or NaN) raises ValueError, and an array whose coordinates all lie within their closed bounds is accepted. Bounds that are NaN, infinite or not given impose no limit on that side.",
  ["inputs", "configurations"], "all arrays and all per-parameter bounds",
  "one test puts two whole rows outside identical bounds [0,1] and only calls fit",
  ["pocomc/input_validation.py", "pocomc/scaler.py"], [("assert_array_within_interval", "pocomc/input_validation.py"), ("fit, forward(check_input)", "pocomc/scaler.py")], (), ["Reparameterize.fit", "Reparameterize.forward"])

p("C05", "The prior is the product of its marginals, coordinate by coordinate",
  "The prior log-density of every row is the sum over parameters of that parameter's own marginal log-density at its own coordinate; sampling returns one row per requested draw whose i-th coordinate comes from the i-th marginal; the reported bounds are each marginal's support in order; and the dimension is the number of marginals.",
  ["inputs", "configurations"], "all lists of marginals (also repeated objects), batch sizes and points, including points outside the support",
  "tests use two or a few marginals and compare shapes or a couple of values; ordering and out-of-support rows are not settled for all lists",
  ["pocomc/prior.py"], [("Prior.logpdf / rvs / bounds / dim", "pocomc/prior.py")], (), ["Prior.logpdf", "Prior.rvs", "Prior.bounds", "Prior.dim"])

p("C06", "Every MCMC kernel accepts with the exact Metropolis-Hastings probability",
  "In all four kernels (random walk and t-preconditioned Crank-Nicolson, each with and without the normalizing flow) a proposal is accepted with probability min(1, r), where r is the ratio of tempered posteriors likelihood^beta * prior including every change-of-variables factor, times the reverse-to-forward ratio of the proposal density actually used to draw it. "
  "A proposal whose ratio is undefined (NaN) is rejected.",
  ["inputs", "configurations"], "all states, proposals, inverse temperatures, proposal scales, geometries, boundary-condition settings and numbers of walkers",
  "the tests only check that a run finishes; a wrong sign, a missing Jacobian term or a misplaced beta yields plausible but wrong posteriors",
  ["pocomc/mcmc.py"], [("alpha = min(1, exp(...)) and the proposal draw", "pocomc/mcmc.py: preconditioned_pcn, preconditioned_rwm, pcn, rwm")], (), ["Sampler.results", "Sampler.posterior"])

p("C07", "A particle's coordinates, densities and blobs always describe one point",
  "After every MCMC sweep each particle's physical coordinates, unconstrained coordinates, log-Jacobian, log-prior, log-likelihood and blobs all belong to one and the same point: either all of the accepted proposal's or all unchanged. "
  "A particle never moves to a point where the prior or the transform is not finite or the likelihood is zero or NaN, and the population passed in is not altered.",
  ["inputs", "histories"], "all sequences of accept/reject decisions over any number of steps and walkers, with and without blobs, for all four kernels and the mutation step that calls them",
  "tests never compare stored likelihoods, priors or blobs with the stored coordinates",
  ["pocomc/mcmc.py", "pocomc/sampler.py"], [("accept new points: masked updates", "pocomc/mcmc.py"), ("_mutate", "pocomc/sampler.py")], (), ["Sampler.results"])

p("C08", "The likelihood is called only where the prior is finite, and every call counted",
  "During sampling the user's likelihood is evaluated only at finite points where the prior log-density is finite, and the cumulative number of calls the sampler reports after each iteration, across warm-up, MCMC, evidence estimation and continued runs, equals the number of points at which it was actually evaluated. "
  "No MCMC sweep takes more than the configured maximum number of steps (and always at least one).",
  ["inputs", "histories", "configurations"], "all runs and continued runs, kernels, priors with holes, vectorised or not",
  "no test counts likelihood calls or uses a prior that excludes part of its box",
  ["pocomc/mcmc.py", "pocomc/sampler.py"], [("finite masks, n_calls, n_max", "pocomc/mcmc.py"), ("calls bookkeeping in run, _mutate, _compute_evidence", "pocomc/sampler.py")], (), ["Sampler.results['calls']", "Sampler.results['steps']"])

p("C09", "Persistent-sampling weights and evidence follow the mixture formula",
  "For every history of iterations and every target inverse temperature, each stored particle's importance weight is likelihood^beta divided by the average over all past iterations of likelihood^beta_t / Z_t, the log-evidence is the logarithm of the mean of these unnormalised weights, and normalised log-weights exponentiate to a total of one. "
  "The formula is evaluated without overflow for log-likelihoods of any magnitude.",
  ["histories", "inputs"], "all numbers of iterations and particles, log-likelihood values, temperatures and past evidences",
  "no test evaluates the weights or the SMC evidence",
  ["pocomc/particles.py"], [("compute_logw_and_logz", "pocomc/particles.py")], (), ["Sampler.results['logw']", "Sampler.results['logz']", "Sampler.evidence"])

p("C10", "The inverse temperature rises monotonically within [0,1] on the ESS target",
  "Each iteration's inverse temperature is at least the previous one and at most one: it stays put if the sample-size metric there does not exceed the target, jumps to one if the metric at one still meets the target, and otherwise is a value whose metric is within 1 percent of the target. "
  "The evidence and sample size recorded with it are those of that same temperature, and with dynamic allocation off the target never changes.",
  ["histories", "inputs", "configurations"], "all particle histories, targets, metrics and dynamic settings",
  "tests run one or two Gaussian targets to completion and never inspect the schedule",
  ["pocomc/sampler.py"], [("_reweight bisection", "pocomc/sampler.py")], (), ["Sampler.results['beta']", "Sampler.results['logz']", "Sampler.results['ess']"])

p("C11", "A run stops only at the posterior with the requested sample size",
  "A run returns only when the last inverse temperature is one (to within 1e-4) and the chosen sample-size metric of all collected samples under posterior weights is at least the requested total; until then it keeps iterating, each iteration reweighting, resampling, moving and recording in that order. "
  "The evidence it then reports is the flow-based importance-sampling estimate if requested and a flow is in use, otherwise the evidence implied by the collected samples at temperature one.",
  ["histories", "configurations"], "all runs, continued and resumed runs, metrics and requested totals",
  "tests run one target per configuration and do not look at the stopping state or at which evidence is returned",
  ["pocomc/sampler.py"], [("run, _not_termination", "pocomc/sampler.py")], (), ["Sampler.run", "Sampler.evidence", "Sampler.results"])

p("C12", "Effective and unique sample sizes obey their definitions and ranges",
  "For any non-negative weights with positive sum, normalised or not, the effective sample size is (sum w)^2 / sum w^2, between 1 and the number of samples, and the unique sample size is the expected number of distinct indices in k draws, sum of 1-(1-w_i/sum w)^k, between 0 and the number of samples. The relative effective sample size and log-evidence increment computed from log-weights do not depend on, respectively shift exactly with, a constant added to all log-weights.",
  ["inputs"], "all weight vectors and log-weight vectors, lengths, scales and k",
  "the only test passes single-element log-weights",
  ["pocomc/tools.py"], [("effective_sample_size, unique_sample_size, compute_ess, increment_logz", "pocomc/tools.py")], (), ["pocomc.tools"])

p("C13", "Weight trimming keeps a normalised top set that preserves the ESS",
  "Trimming always terminates and returns exactly the samples whose normalised weight is at or above some threshold, in their original order, paired with their own weights renormalised to sum to one. The effective sample size of what is kept is at least the requested fraction of the original one.",
  ["inputs"], "all positive weight vectors (normalised or not), sample arrays, fractions up to one and grid sizes",
  "trim is exercised only inside full runs; its result is never checked",
  ["pocomc/tools.py"], [("trim_weights", "pocomc/tools.py")], (), ["Sampler.posterior", "pocomc.tools.trim_weights"])

p("C14", "Systematic resampling is valid and low-variance for every weight vector",
  "For any non-negative weights with positive sum, normalised or not, systematic resampling returns exactly the requested number of valid, non-decreasing indices, and each index appears either floor or ceil of (size times its normalised weight, up to rounding) times, without ever failing whatever the random offset. Given a seed it is deterministic, and the weights passed in are not modified.",
  ["inputs"], "all weight vectors, sizes and random offsets in [0,1)",
  "no test calls it; failures need a rare offset or a rounding deficit in the weights",
  ["pocomc/tools.py"], [("systematic_resample", "pocomc/tools.py")], (), ["pocomc.tools.systematic_resample"])

p("C15", "Reweighting and resampling always move whole particles",
  "Selecting particles from the history and resampling them keeps every particle intact: its coordinates in both spaces, log-Jacobian, log-prior, log-likelihood and blobs all come from the same stored particle, its weight is that particle's normalised weight, and exactly the configured number of active particles results. "
  "Resampling draws particles with probability proportional to their weights under both schemes, and stored history is never altered by it.",
  ["histories", "inputs", "configurations"], "all histories, weights, resampling schemes, with and without blobs",
  "tests never compare the fields of a resampled particle",
  ["pocomc/sampler.py"], [("_reweight selection, _resample", "pocomc/sampler.py")], (), ["Sampler.results"])

p("C16", "Posterior samples come with their own weights, likelihoods and blobs",
  "Whatever options are chosen, the arrays returned as posterior have equal length and their i-th entries belong to the same collected particle; weights are those of the posterior (temperature one), non-negative and sum to one, and log-weights, when asked for, are the logarithms of those importance weights up to a constant. "
  "Resampled output is drawn in proportion to the weights. Asking for the posterior changes nothing in the sampler and fails with ValueError if blobs are requested but none exist.",
  ["histories", "configurations"], "all histories and all combinations of resample, trim, return_logw, return_blobs and scheme",
  "no test calls posterior()",
  ["pocomc/sampler.py"], [("posterior", "pocomc/sampler.py")], (), ["Sampler.posterior"])

p("C17", "The importance-sampling evidence is unbiased over all flow draws",
  "The evidence estimate is the mean over all drawn flow samples of likelihood * prior * Jacobian / flow density, with draws outside the prior support contributing zero rather than being left out of the average, and the reported error is the standard deviation of the same estimator over bootstrap resamples. Both values are what the evidence query afterwards returns.",
  ["inputs", "configurations"], "all flows, priors (including ones that vanish inside their box), likelihoods and numbers of draws",
  "tests never check an evidence value, nor use a prior that vanishes inside its bounds",
  ["pocomc/sampler.py"], [("_compute_evidence", "pocomc/sampler.py")], (), ["Sampler.evidence"])

p("C18", "Likelihood values and blobs do not depend on how they are evaluated",
  "Serial, pooled (with any pool whose map preserves order) and vectorised evaluation assign to every point exactly the likelihood function's value at that point with the extra positional and keyword arguments supplied, in the order of the points, each point being evaluated once. "
  "Blobs returned with the values stay attached to their own point and keep their values for numeric, structured and string blobs alike.",
  ["inputs", "schedules", "configurations"], "all batches including empty ones, pools, blob layouts and extra arguments",
  "tests use no pool, no blobs and no extra arguments",
  ["pocomc/sampler.py", "pocomc/tools.py"], [("_log_like", "pocomc/sampler.py"), ("FunctionWrapper", "pocomc/tools.py")], (), ["Sampler.run", "Sampler.results"])

p("C19", "The MPI pool returns every result once, in task order, under any schedule",
  "For every number of tasks and workers and every order in which workers finish, the MPI pool's map terminates and returns exactly one result per task, in task order, each being the function applied to that task, without ever waiting for a message that cannot come and without giving a busy worker a second task. A worker evaluates each received task once and answers with its tag until told to quit, and closing the pool tells every worker to quit.",
  ["schedules", "inputs"], "all task lists, worker counts and message arrival orders",
  "mpi4py is not installed; no test touches the pool",
  ["pocomc/parallel.py"], [("MPIPool.map, wait, close", "pocomc/parallel.py")], (), ["MPIPool.map"])

p("C20", "Saving a checkpoint is atomic at every crash point",
  "At every instant during a save, and after a crash at any point of it, the checkpoint path holds either the complete previous checkpoint (or nothing if there was none) or the complete new one, whose bytes were forced to disk before it took the place of the old one. Saving never alters the running sampler, and a failed save raises instead of leaving a truncated checkpoint.",
  ["crash_points", "fault_sequences"], "all crash and failure points within a save, with and without a previous checkpoint",
  "tests save once without faults",
  ["pocomc/sampler.py"], [("save_state: temporary file, flush, fsync, rename", "pocomc/sampler.py")], (), ["Sampler.save_state"])

p("C21", "Resuming from a checkpoint continues the run exactly where it stood",
  "Loading a saved state restores every attribute the sampler had when it was saved, except the process pool and progress display, which stay those of the loading sampler. A run resumed from any checkpoint, including one written during warm-up, goes on with the next iteration: no batch of prior samples is evaluated or recorded twice, none is skipped, and iteration numbering carries on.",
  ["histories", "crash_points"], "all checkpoints of all runs, pooled or serial, before, during and after warm-up",
  "the resume test only checks that the resumed run finishes",
  ["pocomc/sampler.py"], [("save_state, load_state, run(resume_state_path), warm-up loop", "pocomc/sampler.py")], (), ["Sampler.load_state", "Sampler.run", "Sampler.results"])

p("C22", "History is append-only and results always reflect all of it",
  "Every iteration adds exactly one record per stored quantity and never changes earlier ones; the results dictionary always contains all iterations recorded so far, in order, under its documented keys, also after the run is continued, with log-weights recomputed for the whole history. The recorded iteration indices increase by one per iteration.",
  ["histories"], "all sequences of runs, continued runs and result queries",
  "no test reads results, in particular not twice around a continued run",
  ["pocomc/particles.py", "pocomc/sampler.py"], [("Particles.update/get/compute_results", "pocomc/particles.py")], (), ["Sampler.results"])

p("C23", "A fixed seed fixes the whole run",
  "Two samplers built with the same inputs and the same integer seed (zero included) in any process state produce identical flow initialisation, samples, weights and evidence when run the same way; all randomness comes from the two seeded generators, which are seeded before anything random happens. Without a seed the generators are not reseeded.",
  ["inputs", "configurations", "histories"], "all seeds, configurations and prior generator states",
  "tests pass random_state=0 but never compare two runs",
  ["pocomc/sampler.py", "pocomc/tools.py", "pocomc/mcmc.py", "pocomc/flow.py"], [("np.random.seed / torch.manual_seed in __init__", "pocomc/sampler.py")], (), ["Sampler.__init__", "Sampler.run"])

p("C24", "The proposal geometry is the weighted fit of the particles it is given",
  "For any weighted particles in any dimension (one included) the fitted normal mean and covariance are the weighted mean and weighted covariance, unweighted if no weights are given, and the Student-t fit is made to the weighted population and yields a location, a symmetric scale matrix of full shape and strictly positive finite degrees of freedom, a non-finite estimate being replaced by a large finite one.",
  ["inputs", "configurations"], "all particle sets and weights in general position, dimensions from one upwards",
  "no test fits a geometry on its own, and none runs in one dimension",
  ["pocomc/geometry.py", "pocomc/student.py"], [("Geometry.fit, fit_mvstud", "pocomc/geometry.py, pocomc/student.py")], (), ["Geometry.fit", "Sampler.run"])

p("C25", "Flow maps and their log-determinants are mutually consistent",
  "As seen by the samplers, mapping points to latent space and back returns them, the log-determinant reported with either direction is that of the latent-to-data map at the same point (so both directions agree), and densities, samples and their log-densities refer to the wrapped flow's data space. Double-precision input is converted to single precision (with a warning unless silenced), other types are refused.",
  ["inputs", "configurations"], "all flows obeying the flow library's contract and all batches",
  "flow tests check the torch-level class in isolation; the numpy adapter and the sign of its log-determinants are never tested",
  ["pocomc/tools.py", "pocomc/flow.py"], [("flow_numpy_wrapper, torch_double_to_float", "pocomc/tools.py"), ("Flow.forward/inverse/log_prob/sample", "pocomc/flow.py")], (), ["Flow.forward", "Flow.inverse", "flow_numpy_wrapper"])

p("C26", "Flow training keeps samples with their weights and the splits disjoint",
  "Training pairs every sample with its own weight also after shuffling, holds out the requested fraction (rounded down to whole samples) of the samples for validation with no overlap and nothing dropped, records one loss per epoch (validation loss too if there is a hold-out), runs at most the requested number of epochs and, when it stops early, leaves the flow at the parameters with the best monitored loss. "
  "The caller's arrays are not modified.",
  ["inputs", "configurations"], "all sample sets, weights, fractions, batch sizes, patience and shuffle settings",
  "the fit test only checks that training runs",
  ["pocomc/flow.py"], [("Flow.fit", "pocomc/flow.py")], (), ["Flow.fit"])

p("C27", "Warm-up records consecutive batches of genuine prior draws",
  "Warm-up turns the prior samples into consecutive, disjoint batches of the active size at inverse temperature zero and zero log-evidence, each stored with its own transform, log-prior, log-likelihood and blobs; particles with infinite log-likelihood are replaced as a whole by particles of the same batch with finite log-likelihood and no others are touched. The reparameterisation is fitted once, to the prior samples, before anything is transformed.",
  ["inputs", "configurations"], "all priors, likelihoods with infinite values, batch counts and blob settings",
  "tests never inspect warm-up records or use infinite likelihoods",
  ["pocomc/sampler.py"], [("run: initialise particles and warm-up loop", "pocomc/sampler.py")], (), ["Sampler.results"])

p("C28", "Sampler options are validated and derived values stay consistent",
  "Unknown transforms, metrics, kernels, resampling schemes and flow names, a vectorised likelihood combined with declared blobs, and omitting both particle numbers are refused with ValueError; every documented combination is accepted. Omitted particle numbers, prior sample number, step limits and training frequency are derived so that active particles are half the effective ones (or effective twice the active), at least one full batch of prior samples is drawn, and explicit values are honoured.",
  ["configurations"], "all option combinations",
  "tests construct samplers with nearly all options at their defaults",
  ["pocomc/sampler.py", "pocomc/scaler.py", "pocomc/flow.py"], [("Sampler.__init__", "pocomc/sampler.py")], (), ["Sampler.__init__"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
