#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os

F = 'pyparticleest/filter.py'
S = 'pyparticleest/smoother.py'
SIM = 'pyparticleest/simulator.py'
RB = 'pyparticleest/models/rbpf.py'
ML = 'pyparticleest/models/mlnlg.py'
LT = 'pyparticleest/models/ltv.py'
NL = 'pyparticleest/models/nlg.py'
HI = 'pyparticleest/models/hierarchial.py'
PI = 'pyparticleest/paramest/interfaces.py'
PE = 'pyparticleest/paramest/paramest.py'
GT = 'pyparticleest/paramest/gradienttest.py'
KA = 'pyparticleest/utils/kalman.py'
CK = 'pyparticleest/utils/ckalman.pyx'
MC = 'pyparticleest/utils/mlnlg_compute.py'
CM = 'pyparticleest/utils/cmlnlg_compute.pyx'
PD = 'pyparticleest/utils/pdf.py'
IN = 'pyparticleest/utils/intrument.py'
IF = 'pyparticleest/interfaces.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Resampling is unbiased, low-variance and never selects zero weight',
     'Drawing n indices from a weight vector (any positive scale) yields n valid indices in which index i occurs floor(n*w_i) or ceil(n*w_i) times (w normalised), n*w_i on average over the random number, and never when w_i = 0. '
     'Resampling or sampling from a particle approximation follows the same law for its normalised exponentiated log weights, whatever constant is added to all log weights.',
     ['inputs', 'schedules'],
     'every weight vector (including zeros, ties and -inf log weights), every n, and every outcome of the random number generator',
     'No stable test calls the resampler; an expectation over the random number cannot be settled by a seeded call.',
     [F], [('systematic resampling', 'filter.py: sample'),
           ('resampling of an approximation', 'filter.py: ParticleApproximation.resample / sample')],
     ['indices returned by sample and ParticleApproximation.resample', 'particle returned by ParticleApproximation.sample'])

prop('C02', 'Particle approximation bookkeeping (Neff, resample, best, isolation)',
     'A particle approximation reports the effective sample size 1/sum(W^2) of its normalised weights W, and its find_best_particles(n) returns the indices of n particles of largest weight in decreasing order of weight; both are unaffected by a constant added to all log weights. '
     'Resampling to N particles leaves N equally weighted particles that are the copies given by the returned indices, and constructing or resampling an approximation never shares memory with the arrays it was made from.',
     ['histories', 'inputs'],
     'every sequence of construct / resample / reweight / query operations on every small weight vector',
     'No stable test constructs a particle approximation.',
     [F], [('effective sample size', 'filter.py: ParticleApproximation.calc_Neff'),
           ('resample resets weights', 'filter.py: ParticleApproximation.resample'),
           ('ordering', 'filter.py: ParticleApproximation.find_best_particles'),
           ('defensive copies', 'filter.py: ParticleApproximation.__init__, interfaces.py: copy_ind')],
     ['pa.part, pa.w, pa.num, len(pa)'])

prop('C03', 'Forward filters are properly weighted (unbiased)',
     'For the filters pf, apf, sir and pfy, every time step maps a weighted particle approximation to one whose weighted averages, multiplied by the step\'s likelihood increment, equal in expectation over the filter\'s randomness the exact one-step Bayes recursion applied to the old approximation. '
     'Consequently, from the initial distribution on, the particle estimate of the unnormalised filtering distribution is unbiased for every time-varying model, input sequence, measurement sequence, number of particles and resampling threshold, with or without an initial measurement.',
     ['schedules', 'inputs', 'configurations'],
     'every outcome of the random number generator, every small time-varying state-space model and data sequence, every filter, threshold and number of particles',
     'The stable tests call single model methods and never run a filter; unbiasedness is a statement about all random outcomes.',
     [F, SIM, IF], [('bootstrap filter', 'filter.py: ParticleFilter.forward/update/measure'),
               ('auxiliary filter', 'filter.py: AuxiliaryParticleFilter.forward'),
               ('sequential importance resampling', 'filter.py: SIR.forward'),
               ('proposal from measurement', 'filter.py: FFPropY.forward/measure')],
     ['pt.traj[t].pa.part and pa.w after each forward/measure'])

prop('C04', 'Resampling happens exactly when configured and ancestry is truthful',
     'A pf, apf, sir or pfy step resamples if and only if the effective sample size of the weights it selects from is below the configured fraction of the number of particles (never for threshold 0), and forward returns exactly that fact, so that simulate returns the number of resampled steps. '
     'The stored ancestor indices name, for each particle of the new step, the particle it was propagated from, and the stored new log weights equal, up to a common constant, the ancestor\'s weight (0 after resampling) plus the increment of the filter\'s importance weight for that ancestor and particle.',
     ['schedules', 'inputs', 'configurations'],
     'every random outcome, weight pattern, threshold and filter over every step of a bounded run',
     'Needs specific weight degeneracy patterns and tracking of where each particle came from; no stable test runs a filter.',
     [F, SIM], [('resampling decision', 'filter.py: ParticleFilter/SIR/FFPropY/AuxiliaryParticleFilter.forward'),
                ('ancestor record', 'filter.py: TrajectoryStep'),
                ('counting', 'simulator.py: Simulator.simulate')],
     ['return value of forward/simulate', 'pt.traj[t].ancestors, pa.w'])

prop('C05', 'Filter history is append-only and aligned with inputs, outputs and time',
     'Over any sequence of measure and forward calls, with or without a preallocated length, a particle trajectory grows by one step per forward, stores u[t], y[t] and t at the step they belong to, and never changes a step that was stored earlier, including the particles, weights and ancestors of the step it propagates from. '
     'Every call into the model for the transition t to t+1 receives u[t] and t together with the particles of time t, and every likelihood evaluation receives the measurement and the time stamp of the particles\' own time; smoothers see the same aligned data.',
     ['histories', 'configurations'],
     'every sequence of measure/forward calls up to the bound, every filter type, both allocation modes and every smoother',
     'Off-by-one alignment and aliasing only show in multi-step histories with time-varying data; no stable test runs two steps.',
     [F, S, SIM], [('storage growth', 'filter.py: ParticleTrajectory.forward/measure'),
              ('slicing of uvec/yvec/tvec', 'filter.py: ParticleFilter.update/measure and interfaces.py: ParticleFiltering.*_full'),
              ('copying of the previous step', 'filter.py: *.forward')],
     ['pt.uvec, pt.yvec, pt.tvec, pt.traj', 'arguments seen by model callbacks'])

prop('C06', 'Weights are invariant to likelihood scale and never under- or overflow',
     'Adding any constant (even thousands) to all log-likelihoods, proposal log-densities or transition log-densities of a step changes neither the normalised weights, nor ancestors, nor resampling decisions, nor particles of any filter, nor the trajectories of any smoother, for the same random numbers. '
     'Weights are kept as logarithms: particles whose weights differ by more than the range of floating point numbers keep their exact ratio until a later likelihood brings them back. '
     'In runs of any length every stored set of log weights stays finite with a positive normalisable sum as long as at least one particle has nonzero likelihood.',
     ['inputs', 'histories', 'schedules'],
     'every filter and smoother, offset pattern over the time steps and random outcome within the bound; runs hundreds of steps long',
     'Underflow needs long histories or extreme likelihoods, which no test uses.',
     [F, S], [('rescaling of log weights', 'filter.py: measure / forward of each filter'),
           ('log-sum-exp normalisation', 'filter.py: ParticleApproximation.calc_Neff/resample; smoother.py: bsi_*')],
     ['pa.w after each step', 'smoothed trajectories'])

prop('C07', 'Missing measurements (None) leave the weights alone',
     'When the measurement of a step is None, the pf, apf, cpf and cpfas filters propagate the particles without reweighting them and without evaluating the likelihood, so that estimates are those of the exact filter with that measurement removed. '
     'All smoothers (full, rs, rsas, mcmc, mhips, mhips_reduced, mhbp, ancestor) and the Rao-Blackwellised models likewise treat such a step as carrying no information.',
     ['inputs', 'schedules'],
     'every pattern of missing measurements (including the first, the last and all) over bounded data, every filter and smoother, every random outcome',
     'No stable test has a missing measurement.',
     [F, S, RB, ML], [('guard on None', 'filter.py: forward of pf/apf/cpf/cpfas, ParticleTrajectory.measure'),
                  ('guard on None in smoothing', 'smoother.py: mc_step; models/rbpf.py: post_smoothing/pre_mhips_pass; models/mlnlg.py: sample_smooth')],
     ['filter weights and smoothed trajectories'])

prop('C08', 'Conditional filters carry the reference trajectory at every time',
     'In the conditional filters cpf, cpfas, csiras and cpfyas the particle approximation of every time step contains the state of the supplied reference trajectory for that time, in the last position, with the weight any other particle with that state and ancestor would have. '
     'Without ancestor sampling the reference particle\'s ancestor is always the reference particle of the previous step; with ancestor sampling it is drawn with probability proportional to the previous weights times the transition density to the reference state; the other particles descend from particle i of the previous step N-1 times its weight on average.',
     ['schedules', 'inputs'],
     'every reference trajectory, data sequence, number of particles and random outcome of bounded models',
     'Depends on all random outcomes over several steps; no stable test runs a conditional filter.',
     [F], [('conditional SMC', 'filter.py: CPF'), ('ancestor sampling', 'filter.py: CPFAS'),
           ('conditional SIR', 'filter.py: CSIRAS'), ('conditional pfy', 'filter.py: CPFYAS')],
     ['pt.traj[t].pa.part[-1], ancestors[-1], pa.w'])

prop('C09', 'Particle Gibbs leaves the smoothing distribution invariant',
     'If the reference trajectory is distributed according to the exact joint smoothing distribution, then running a conditional filter (cpf, cpfas, csiras, cpfyas) on it with two particles and drawing one trajectory with the ancestor (or backward simulation) smoother gives a trajectory with exactly the same distribution.',
     ['schedules', 'inputs'],
     'every random outcome, every reference trajectory, every bounded model and data sequence',
     'Invariance of a Markov kernel is a statement about the whole law; sampling-based tests have no power at this resolution and none exist.',
     [F, S], [('conditional filters', 'filter.py: CPF, CPFAS, CSIRAS, CPFYAS'),
              ('trajectory selection', 'smoother.py: perform_ancestors, perform_bsi')],
     ['law of straj.traj'])

prop('C10', 'Backward simulation draws from the exact backward law (full, rs, rsas)',
     'Given any sequence of filter approximations, the smoothers full, rs and rsas return trajectories of filter particles such that, averaged over the requested trajectories, the law of a trajectory is: last particle with its filter weight, then going backwards each particle with probability proportional to filter weight times transition density to the particle chosen after it. '
     'This holds for every number of trajectories and every setting of the rejection limit and adaptive stopping parameters. With full, the trajectories are moreover drawn independently of each other once their last particles are given.',
     ['schedules', 'inputs', 'configurations'],
     'every random outcome, every filter approximation on bounded state spaces, number of trajectories and smoother options',
     'An equality of laws over all random outcomes; no stable test runs a smoother.',
     [S, F], [('backward simulation', 'smoother.py: bsi_full'), ('rejection sampling', 'smoother.py: bsi_rs'),
           ('adaptive stopping', 'smoother.py: bsi_rsas'), ('driver', 'smoother.py: perform_bsi; filter.py: perform_smoothing')],
     ['law of straj.traj'])

prop('C11', 'MCMC smoothers leave the smoothing distribution invariant',
     'If the forward approximation represents the filtering distributions (with ancestry) exactly, the smoothers mcmc, mhips, mhips_reduced and mhbp return trajectories which, averaged over the requested trajectories, have exactly the joint smoothing distribution, for every number of iterations R and every number of trajectories, and every proposal density.',
     ['schedules', 'inputs', 'configurations'],
     'every random outcome, every bounded model, data sequence (at least two time steps), proposal, R and number of trajectories',
     'An equality of laws over all random outcomes; no stable test runs a smoother.',
     [S, F, IF], [('MH-FFBSi', 'smoother.py: bsi_mcmc'), ('acceptance step', 'smoother.py: mc_step'),
           ('MHIPS', 'smoother.py: perform_mhips_pass'), ('MHBP', 'smoother.py: perform_mhbp')],
     ['law of straj.traj'])

prop('C12', 'The ancestor smoother returns the stored genealogies',
     'The ancestor smoother returns trajectories each of which is the exact line of ancestors, through the stored ancestor indices, of one particle of the last filter step, and the number of returned trajectories ending in last-step particle i is floor or ceil of M times its weight and M times its weight on average. '
     'The filter history is left unchanged by this and every other smoother.',
     ['schedules', 'inputs', 'histories'],
     'every stored genealogy (ancestor maps) up to the bound, every weight vector, every M and random outcome',
     'Needs nontrivial ancestor maps over several steps; no stable test builds one.',
     [S], [('genealogy tracing', 'smoother.py: calculate_ancestors / perform_ancestors_int / perform_ancestors')],
     ['straj.get_smoothed_estimates()', 'pt.traj before/after'])

prop('C13', 'Estimates returned by the simulator equal the stored filter and smoother',
     'After a simulation the filtered estimates and their weights are, for every time and particle, the filter\'s particles and its normalised weights, the filtered mean is their weighted mean, the smoothed estimates are the smoothed trajectories time by time and the smoothed mean is their average. '
     'They have shapes (T, N, D), (T, N), (T, D), (T, M, D), (T, D), and simulate with an initial measurement uses y[0] for the initial state and pairs u[t] with y[t+1] afterwards, else u[t] with y[t].',
     ['configurations', 'inputs'],
     'every combination of filter, smoother, meas_first, number of particles and trajectories, data length and state dimension within the bound',
     'No stable test runs the simulator.',
     [SIM, S, F], [('accessors', 'simulator.py: get_filtered_estimates/mean, get_smoothed_estimates/mean; smoother.py: get_smoothed_estimates'),
               ('data pairing', 'simulator.py: Simulator.simulate')],
     ['return values of the Simulator accessors'])

prop('C14', 'Nonlinear Gaussian model class implements its stated densities',
     'For a model x[t+1] = f(x[t],u,t) + v, y = g(x,t) + e with Gaussian v and e, measurement and transition log-densities equal the multivariate normal log-densities for every dimension and for constant or time-varying, shared or particle-dependent Q and R. '
     'Initial and process-noise samples have exactly the stated means and covariances, the transition maximum equals the largest transition density, the first-stage weights are the measurement density at the predicted mean, and log p(x0) is the stated Gaussian.',
     ['inputs', 'configurations'],
     'every dimension 1..2 (states and outputs), Q/R given as constants or per particle, every grid point of states, inputs and measurements',
     'The stable tests only use scalar noise with unit-like variance and shared constant Q.',
     [NL], [('densities', 'models/nlg.py: NonlinearGaussian.measure/logp_xnext/logp_xnext_max/eval_1st_stage_weights'),
            ('initial distribution', 'models/nlg.py: NonlinearGaussianInitialGaussian')],
     ['return values of measure, logp_xnext, logp_xnext_max, eval_logp_x0, sample_process_noise, create_initial_estimate'])

prop('C15', 'LTV model: filter, likelihood and smoother equal the exact Kalman solution',
     'For a linear time-varying Gaussian model every particle carries, after any sequence of steps, exactly the conditional mean and covariance of the state given the measurements so far, and the log-weights returned for a measurement are the exact predictive log-density. '
     'After backward-simulation smoothing (full, mcmc) every trajectory carries the exact smoothed mean, covariance and lag-one cross-covariance given all measurements, whichever of the matrices are constant, time-varying, zero or left at defaults.',
     ['inputs', 'configurations', 'histories'],
     'every measurement pattern (with missing ones), set of constant/time-varying A, f, Q, C, h, R on small matrix alphabets, dimensions 1..2 and horizons up to the bound',
     'The stable tests check one update and one measurement of a constant model, never smoothing or time variation.',
     [LT, KA], [('Kalman recursion', 'models/ltv.py: update/measure; utils/kalman.py'),
            ('smoothing', 'models/ltv.py: sample_smooth'), ('state packing', 'models/ltv.py: set_states/get_states')],
     ['get_states of filter and smoothed particles', 'measure return values'])

prop('C16', 'Mixed linear/nonlinear Gaussian filter is exactly Rao-Blackwellised',
     'For mixed linear/nonlinear Gaussian models each particle carries exactly the mean and covariance of the linear states conditioned on its own sampled nonlinear trajectory and the measurements so far, its measurement log-weight is the exact predictive log-density given that trajectory, and the nonlinear state is proposed from its exact predictive distribution. '
     'This holds with cross-correlated process noise, with shared or particle-dependent matrices, and when any of the optional matrices or vectors (C, h, f_xi, f_z, cross-covariance) is absent.',
     ['inputs', 'configurations', 'schedules'],
     'every configuration of dimensions 1..2, cross-covariance, absent/shared/per-particle matrices, and every grid of sampled nonlinear trajectories and measurements within the bound',
     'The stable tests do not touch this class at all.',
     [ML, RB, KA, CK], [('conditional dynamics', 'models/mlnlg.py: update / calc_cond_dynamics / meas_xi_next'),
                    ('measurement', 'models/mlnlg.py: measure; utils/kalman.py'),
                    ('proposal', 'models/mlnlg.py: sample_process_noise / calc_xi_next')],
     ['get_states of particles', 'measure return values', 'sampled noise'])

prop('C17', 'Rao-Blackwellised smoothing yields the exact conditional statistics',
     'After smoothing (any smoother) a Rao-Blackwellised model\'s trajectories carry, for the linear states of each nonlinear trajectory, exactly the smoothed mean and covariance given that trajectory and all measurements, and the lag-one cross-covariance used by parameter estimation is exact. '
     'Recomputing the filter statistics before a Metropolis-Hastings pass gives exactly the conditional filter statistics of the current trajectory.',
     ['inputs', 'configurations'],
     'every configuration (dimensions, cross-covariance, missing measurements, absent matrices) and every grid of nonlinear trajectories within the bound',
     'No stable test runs a Rao-Blackwellised smoother.',
     [RB, ML], [('constrained RTS smoothing', 'models/rbpf.py: RBPSBase.post_smoothing / pre_mhips_pass'),
            ('conditional dynamics', 'models/mlnlg.py: calc_cond_dynamics')],
     ['get_states of smoothed trajectories'])

prop('C18', 'Rao-Blackwellised backward weights are the exact conditional densities',
     'For mixed linear/nonlinear Gaussian models the backward weights of the sampled smoother are, as a function of the particle and up to a constant, the exact density of the sampled future state given the particle, and those of the marginalised smoother are the exact density of the entire future (nonlinear states and measurements) given the particle\'s statistics. '
     'States of the linear part drawn during backward simulation have exactly the conditional mean and covariance given the particle and the future, and the proposal density reported to Metropolis-Hastings smoothers is the exact density of the proposed nonlinear state.',
     ['inputs', 'configurations', 'schedules'],
     'every configuration (dimensions, cross-covariance, missing measurements, absent or particle-dependent matrices), grids of particles and futures, every value of the discretised noise',
     'No stable test evaluates a backward weight of these models.',
     [ML, RB], [('sampled backward kernel', 'models/mlnlg.py: MixedNLGaussianSampled.logp_xnext / sample_smooth'),
            ('marginalised backward kernel', 'models/mlnlg.py: MixedNLGaussianMarginalized.logp_xnext_full / calc_prop1 / sample_smooth')],
     ['logp_xnext, logp_xnext_full, sample_smooth return values'])

prop('C19', 'Hierarchical models: conditional Kalman filter and backward kernel are exact',
     'For hierarchical conditionally linear models each particle carries exactly the conditional mean and covariance of its linear states given its nonlinear trajectory, measurement weights are the sum of the nonlinear and the exact predictive linear log-densities, and backward weights are the sum of the nonlinear and the exact linear transition densities. '
     'Linear states sampled in backward simulation have exactly the conditional mean and covariance given the future state, separately for every trajectory.',
     ['inputs', 'configurations', 'schedules'],
     'every configuration of a bounded family of hierarchical models, grids of particles and futures, every value of the discretised noise',
     'No stable test touches the hierarchical base class.',
     [HI, RB], [('forward', 'models/hierarchial.py: update/measure'), ('backward', 'models/hierarchial.py: logp_xnext/logp_xnext_max/sample_smooth')],
     ['get_states', 'measure, logp_xnext, sample_smooth return values'])

prop('C20', 'Rejection-sampling bounds are valid for every model class',
     'For every model class that supports rejection sampling, the bound used for a time step is at least as large as the transition log-density from every particle of that step to every possible next state, so that no acceptance probability ever exceeds one. '
     'The bound is attained (up to rounding) when the noise covariance is shared by all particles, so rejection sampling never becomes needlessly inefficient.',
     ['inputs', 'configurations'],
     'every set of particles and next states on the grids and every configuration (dimensions, particle-dependent covariance, time variation) within the bound',
     'No stable test calls these methods; validity quantifies over all next states.',
     [NL, ML, HI, IF, F], [('bounds', 'models/nlg.py, mlnlg.py, hierarchial.py: logp_xnext_max; interfaces.py: logp_xnext_max_full'),
                ('use', 'filter.py: perform_smoothing; smoother.py: bsi_rs/bsi_rsas')],
     ['logp_xnext_max vs. logp_xnext'])

prop('C21', 'The EM objective and its gradient are mutually consistent and exact',
     'The expected complete-data log-likelihood that the parameter-estimation interface evaluates equals log p(x0) plus the sum over time of transition and measurement log-densities, averaged over trajectories and, for conditionally linear models, in expectation over the smoothed linear states, up to a constant that does not depend on the parameters. '
     'For every model class and every parameter the analytic gradient equals the derivative of the value that is returned with it, missing measurements are skipped and the first measurement is counted.',
     ['inputs', 'configurations'],
     'every parameterisation (which matrices depend on the parameter, per-particle or shared), dimension, missing-measurement pattern and grid point within the bound',
     'No stable test evaluates the objective or a gradient.',
     [PI, LT, ML, MC, CM, GT], [('objective', 'paramest/interfaces.py: eval_*_fulltraj, maximize'),
                        ('model terms', 'models/ltv.py, models/mlnlg.py: eval_logp_*_val_grad, calc_l1..l3'),
                        ('gradient kernels', 'utils/mlnlg_compute.py, utils/cmlnlg_compute.pyx')],
     ['eval_logp_* and eval_logp_*_val_grad return values'])

prop('C22', 'Maximisation steps return a bounded maximiser of the current objective',
     'The numerical and gradient-based maximisation steps return parameters at which the current objective is no worse than at the current parameters and which maximise it when it is concave, and they respect the bounds of the model. '
     'The analytic-gradient variant and the numeric variant agree, and the model\'s own maximisation (when provided) is used unchanged.',
     ['inputs', 'configurations'],
     'every bounded model of a small family with known maximiser, with and without bounds, with one and two parameters',
     'No stable test runs a maximisation.',
     [PI], [('maximisers', 'paramest/interfaces.py: maximize/maximize_weighted of ParamEstBaseNumeric, ParamEstInterface_GradientSearch')],
     ['returned parameters'])

prop('C23', 'The EM driver follows its protocol',
     'Each iteration of parameter estimation sets the current parameters on the model, runs exactly one simulation with that iteration\'s number of particles and trajectories (the last entry being reused when the list is exhausted) and the given filter, smoother and options, and then maximises using that iteration\'s smoothed trajectories; the next iteration uses exactly the returned parameters. '
     'There are exactly max_iter iterations, callbacks are called once per iteration in order after simulation and after maximisation, and the final parameters are returned.',
     ['histories', 'configurations'],
     'every combination of scalar/list particle schedules, max_iter, callbacks, filter and smoother options within the bound',
     'No stable test runs the driver.',
     [PE, SIM], [('EM loop', 'paramest/paramest.py: ParamEstimation.maximize')],
     ['event trace of model, callbacks and simulator'])

prop('C24', 'Stochastic-approximation EM keeps an exactly weighted trajectory archive',
     'In the stochastic-approximation EM variants (SAEM, PSAEM, PSAEM2) the trajectories handed to the weighted maximisation after k iterations carry the weights given by the recursion w <- (1-alpha_k) w for old and alpha_k/M for each of the M new ones (in Rao-Blackwellised PSAEM alpha_k times the filter weight for the ancestral line of each last-step particle), normalised to sum one, and each weight stays attached to its own trajectory. '
     'Trajectories are dropped only as the discard options (or a weight of exactly zero, or the trajectory limit) say, in PSAEM and PSAEM2 the reference trajectory of each iteration is the smoothed trajectory of the previous one, and the default step sizes lie in (0, 1], never increase and decay with an exponent in (1/2, 1].',
     ['histories', 'inputs', 'configurations'],
     'every step-size sequence over a small alphabet, number of iterations, trajectories, discard option and random outcome within the bound',
     'The recursion and alignment only show after several iterations; no stable test runs these drivers.',
     [PE], [('SAEM', 'paramest/paramest.py: ParamEstimationSAEM.maximize'),
            ('PSAEM', 'paramest/paramest.py: ParamEstimationPSAEM.maximize, ParamEstimationPSAEM2.maximize'),
            ('step sizes', 'paramest/paramest.py: alpha_gen')],
     ['arguments of maximize_weighted', 'conditional trajectory given to the filter'])

prop('C25', 'Kalman building blocks equal exact Gaussian conditioning',
     'The Kalman utilities compute exact Gaussian algebra: time update, measurement update, predicted measurement, innovation, and smoothing step return the mean and covariance of the joint Gaussian conditioned or marginalised as stated, and log-densities equal the multivariate normal log-density for the given covariance or for its Cholesky factor, in every dimension and for several residuals at once. '
     'Inputs that the caller did not pass for in-place modification are left unchanged.',
     ['inputs', 'configurations'],
     'every dimension combination up to the bound and all matrices and vectors from small alphabets',
     'The stable tests only reach these through one LTV update and measurement with full matrices.',
     [KA, CK], [('filter steps', 'utils/kalman.py: KalmanFilter, KalmanSmoother'), ('densities', 'utils/kalman.py: lognormpdf*')],
     ['return values of the utilities'])

prop('C26', 'Compiled and pure-Python implementations agree',
     'The optional compiled extensions and the pure-Python fallbacks expose the same functions and return the same values (up to rounding) for the same arguments, and leave the same arguments modified, so that results do not depend on whether the extensions were built.',
     ['inputs', 'configurations'],
     'every exported function on every dimension combination and argument alphabet within the bound, and whole filter/smoother/estimation runs under the same random numbers',
     'The stable tests run both configurations but only reach a handful of calls on scalars.',
     [KA, CK, MC, CM], [('two implementations', 'utils/kalman.py vs utils/ckalman.pyx; utils/mlnlg_compute.py vs utils/cmlnlg_compute.pyx')],
     ['return values and in-place results'])

prop('C27', 'Density of a sum of uniforms is a correct probability density',
     'The density of the sum of two uniform variables returned by the uniform-sum utility is nonnegative, piecewise linear, integrates to one, vanishes outside the support, and equals the exact convolution of the two uniform densities for all nondegenerate intervals, each given by its two endpoints in either order.',
     ['inputs'],
     'every combination of interval endpoints and evaluation points on the grids',
     'No stable test imports the module.',
     [PD], [('trapezoidal density', 'utils/pdf.py')],
     ['returned density values'])

prop('C28', 'Instrumentation is transparent and counts every operation',
     'Wrapping a model in the instrumenter changes no result of any filter or smoother for the same random numbers, and the reported counts equal the number of particles for which each kind of model operation was requested. '
     'Printing statistics reports exactly these counts.',
     ['configurations', 'schedules'],
     'every filter and smoother combination supported and every random outcome of a bounded run',
     'No stable test uses the instrumenter.',
     [IN], [('delegation and counting', 'utils/intrument.py: Instrumenter, OpCount')],
     ['trajectories with and without wrapper', 'instrumenter.oc'])

prop('C29', 'The gradient test tabulates the EM objective and its gradient',
     'GradientTest.test(param_id, values, num, nums) simulates once with the parameters set before (num particles, nums trajectories) and tabulates, for log p(x0), the transition term and the measurement term, '
     'the value of that term of the EM objective for those same trajectories at the parameters in which only entry param_id is replaced by each of the values in turn, and (if analytic_grad) the derivative of that term with respect to that parameter there, and no derivative otherwise. '
     'Plotting draws exactly this table: the curve of values and tangents with the tabulated slopes.',
     ['inputs', 'histories'],
     'every model matrix that may depend on the parameters, parameter index, grid, number of particles and trajectories, and missing measurement pattern',
     'No stable test imports the module; whether value and slope belong to the same function of the parameters is a statement about every grid point.',
     [GT, PI, PE], [('tabulation', 'gradienttest.py: GradientTest.test'), ('drawing', 'gradienttest.py: GradPlot.plot / draw_gradient')],
     ['plot_y, plot_xn, plot_x0 (params, vals, diff) and the lines drawn'])

prop('C30', 'Non-Markovian models are handed each particle\'s own history',
     'For models whose transition and likelihood depend on earlier states (the non-Markovian interfaces), every filter and smoother passes each particle together with the indices of its own ancestors in the step just before it, its own future, and the data up to the right time. '
     'Consequently the bootstrap, auxiliary and measurement-proposal filters estimate the unnormalised law of the whole path without bias (also when measurements are given to measure after the step instead of to forward), '
     'backward simulation in all its variants draws from the exact backward law given each particle\'s own history and its own entire future, the MCMC smoothers and the conditional particle filter leave the exact smoothing law invariant, '
     'ancestor sampling and the weights of the conditional filters use each particle\'s own predecessor, and sample_smooth receives the ancestor and the future trajectory of the very particle it is given.',
     ['schedules', 'histories', 'configurations'],
     'every random outcome, every assignment of ancestors, states and weights within the bounds, missing measurements, resampling or not',
     'Mistakes in the index bookkeeping cannot be seen with Markovian models, and no test uses a non-Markovian one.',
     [F, S, IF], [('forward history', 'filter.py: ParticleFilter.update/measure, FFPropY, CPFAS, CPFYAS, ParticleTrajectory.measure'),
                    ('backward history', 'smoother.py: bsi_*, perform_bsi, calculate_ancestors, perform_mhbp, perform_mhips_pass, mc_step'),
                    ('interfaces', 'interfaces.py: ParticleFilteringNonMarkov, FFBSiNonMarkov, FFBSiRSNonMarkov')],
     ['weights, ancestors and particles of the filters', 'smoothed trajectories', 'arguments of the model methods'])

prop('C31', 'Runs are isolated and leave the caller\'s data alone',
     'What a run computes depends on its own model, current parameters, data, options and random numbers only: any interleaving of the operations of two runs in one process (with their own models, or sharing one model without state) gives each of them exactly what it gives alone in a fresh interpreter. '
     'Smoothing a trajectory any number of times, with any smoothers and in any order relative to its forward steps, changes neither the filter nor earlier smoothed trajectories, and each smoothing gives what it would give on a fresh trajectory. '
     'A Simulator can be reused: after any sequence of set_params and simulate calls a run gives exactly what a fresh Simulator with the current parameters gives, and the estimates of a run stay available unchanged until the next run. '
     'No run modifies the inputs, measurements, parameters or option dictionaries it was given, and later changes of the array passed to set_params have no effect.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of two runs, every order of steps and smoothings, and every call sequence up to the bound, for every model class, filter and smoother',
     'Shared buffers, caches and options that survive a call only show when runs are mixed; tests execute one run per process.',
     [F, S, SIM], [('state kept between calls', 'simulator.py: Simulator.set_params/simulate; filter.py: ParticleTrajectory; smoother.py: SmoothTrajectory'),
                 ('state kept by models', 'models/*.py, utils/kalman.py: matrices set by set_dynamics')],
     ['stored particles, weights, ancestors', 'smoothed trajectories', 'the caller\'s arrays and dictionaries'])

prop('C32', 'Statistics carried by particles and the model hooks are used exactly as documented',
     'For models whose particles carry sufficient statistics besides the sampled state (Rao-Blackwellised models), every measurement and every time update enters each particle\'s statistics exactly once in every filter, with or without a measurement at time 0, with missing measurements, and with the last measurement given late by measure. '
     'Every model callback receives the representation it is documented to get: filter callbacks get filter particles, sample_smooth turns the filter particles of the step at hand into smoothed ones, proposal and density callbacks of the smoothers get smoothed ones where documented; smoothing leaves the stored forward particles unchanged. '
     'pre_mhips_pass runs once before each MHIPS pass on a complete smoothed trajectory, post_smoothing runs exactly once, last, for every smoother, and what it returns is the result. The sampled states are those of the same run of a model without statistics.',
     ['schedules', 'configurations', 'histories'],
     'every filter and smoother with its options, measurement pattern and random outcome within the deviation bound',
     'An update applied twice or to the wrong copy gives plausible numbers; no stable test uses the hooks.',
     [F, S, IF], [('where updates enter', 'filter.py: ParticleFilter.update/measure, CPFAS, FFPropFromMeasurement*'),
                ('representations and hooks', 'smoother.py: SmoothTrajectory (perform_bsi, perform_mhips_pass, perform_mhbp, perform_mcmc, perform_ancestors), ParticleTrajectory.perform_smoothing')],
     ['columns of the stored particles', 'calls of sample_smooth, pre_mhips_pass, post_smoothing', 'get_smoothed_estimates'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
