"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'The Keplerian RV curve is the solution of the two-body problem',
     '''For every time, period P>0, periastron time, eccentricity 0<=e<1 (values above 0.99 act as 0.99, negative ones as 0),
     periastron angle w and semi-amplitude K, the computed radial velocity is K*(cos(nu+w)+e*cos(w)), where nu is the
     true anomaly belonging to the root E of Kepler's equation E-e*sin(E)=M at mean anomaly M=2*pi*(t-tp)/P. The
     compiled and the pure-Python solver obey the same contract for arrays of any length, every returned E satisfies
     Kepler's equation to 1e-12, and no input array is modified.''',
     ['inputs'], 'all real t (arrays of any length), P, tp, e, w, K; both solver back ends',
     'Tests compare the two solvers on a few orbits; the formula must hold over a 6-dimensional real domain.',
     ['radvel/kepler.py', 'radvel/orbit.py', 'src/kepler.c', 'src/_kepler.pyx'],
     [('rv_drive', 'radvel/kepler.py'), ('kepler solver loop', 'radvel/kepler.py'), ('true_anomaly', 'radvel/orbit.py'),
      ('kepler, rv_drive (C)', 'src/kepler.c'), ('rv_drive_array', 'src/_kepler.pyx')])

prop('C02', 'Transit and periastron times convert consistently',
     '''Converting a time of inferior conjunction to a time of periastron and back (or the other way round) returns the
     original time for every period, 0<=e<1 and w, and at the conjunction the true anomaly plus w is pi/2. The
     secondary eclipse time is the instant with true anomaly plus w equal to 3*pi/2, in the period that follows
     periastron. For e>=1 the conversions return their input, and scalar and array inputs agree element by element.''',
     ['inputs'], 'all real tc/tp, per>0, 0<=e<1 (and e>=1), w; scalars and arrays of any length',
     'Tests round-trip a handful of orbits inside basis conversions only.',
     ['radvel/orbit.py'],
     [('timetrans_to_timeperi', 'radvel/orbit.py'), ('timeperi_to_timetrans', 'radvel/orbit.py')])

prop('C03', 'Every orbital basis describes the same orbit',
     '''For each supported basis, conversion to the synthesis basis yields exactly the period, periastron time, eccentricity,
     argument of periastron and semi-amplitude that the basis defines, and conversion back recovers the parameters
     (angles modulo 2*pi). The dictionary, table and vector forms of the conversion agree, for any number of planets,
     and keep vary flags of shared parameters and every non-orbital parameter (gamma, jitter, trends) unchanged.
     Conversion to the synthesis basis never modifies its input.''',
     ['inputs', 'configurations'], 'all bases, all admissible real parameter values, 1..3 planets, dict/vector/table',
     'Tests round-trip one parameter set per basis.',
     ['radvel/basis.py', 'radvel/model.py', 'radvel/orbit.py'],
     [('to_synth/v_to_synth', 'radvel/basis.py'), ('from_synth/v_from_synth', 'radvel/basis.py')])

prop('C04', 'Parameter dictionary and parameter vector describe the same parameters',
     '''For any number of planets, basis and set of instrument parameters, the vector row of a parameter carries its value,
     vary flag, MCMC scale and linear flag, rows are distinct, the names reported for rows are the dictionary keys,
     and writing the vector back into the dictionary reproduces every entry. Setting the free parameters from an array
     changes exactly the free parameters, in the order their names are reported, leaves fixed ones untouched, and
     reading them back returns the array.''',
     ['configurations', 'inputs'], 'all bases, 1..3 planets, any choice of vary flags, any values',
     'Tests use two or three fixed set-ups.',
     ['radvel/model.py', 'radvel/likelihood.py'],
     [('Parameters, Vector', 'radvel/model.py'), ('set_vary_params/get_vary_params', 'radvel/likelihood.py')])

prop('C05', 'The RV model is the sum of the planets plus the trend',
     '''The model velocity at time t is the sum of the single-planet Keplerian curves of all planets (or of the requested
     planet) plus dvdt*(t-time_base)+curv*(t-time_base)^2, independently of the basis the parameters are given in.
     Requesting one planet gives that planet's curve plus the trend, so that single-planet curves add up to the full
     model with the trend counted once each. Evaluation changes neither the parameters nor the times.''',
     ['inputs', 'configurations'], 'all parameter values, 1..3 planets, all bases, any times',
     'Tests evaluate a few fixed systems.',
     ['radvel/model.py', 'radvel/kepler.py'],
     [('_standard_rv_calc', 'radvel/model.py'), ('GeneralRVModel.__call__', 'radvel/model.py')])

prop('C06', 'The single-instrument likelihood is the Gaussian likelihood with jitter',
     '''The residuals are data minus model minus the instrument offset minus the declared linear decorrelation terms (for
     finite decorrelation vectors), and the log-likelihood is the Gaussian log-density of these residuals with
     variance sigma_i^2+jit^2. When the offset is declared linear, it is set to the inverse-variance weighted mean of
     the offset-free residuals and the log-likelihood is that of the marginalised Gaussian. Evaluating it does not
     modify data, errors, or any parameter other than a linear offset.''',
     ['inputs', 'configurations'], 'any number of observations, any data, errors, jitter, offset, decorrelation vectors',
     'Tests pin a few log-likelihood values.',
     ['radvel/likelihood.py'],
     [('RVLikelihood.residuals/errorbars/logprob', 'radvel/likelihood.py'), ('loglike_jitter', 'radvel/likelihood.py')])

prop('C07', 'A composite likelihood is the sum of its instruments',
     '''The log-likelihood of several instruments is the sum of the instruments' log-likelihoods evaluated with the shared
     parameters, and residuals, velocities, error bars, times and instrument labels are the concatenation of the
     instruments' in the order given. The parameters of all instruments are available exactly once under their own
     names, and likelihoods built on different models are rejected. A posterior initialised from a setup file gives
     each instrument exactly its own rows, decorrelation columns and kernel with the setup's values, vary flags, priors
     and time base; obsolete logjit parameters become jit=exp(logjit).''',
     ['inputs', 'configurations'], '1..3 instruments of any sizes, any data and parameter values',
     'Tests use one or two fixed composites.',
     ['radvel/likelihood.py', 'radvel/utils.py'],
     [('CompositeLikelihood', 'radvel/likelihood.py'), ('initialize_posterior', 'radvel/utils.py')])

prop('C08', 'GP kernels, likelihood and prediction follow the GP formulas',
     '''Each kernel's covariance matrix entry is the documented kernel function of the two times and the hyper-parameters,
     with the squared error bars (including jitter) added on the diagonal only for the data-data matrix (kernels of
     very distant times may be cut off below exp(-100)); a kernel with a missing, unnamed or extra hyper-parameter is
     rejected. The log-likelihood is the multivariate normal log-density of the residuals under that covariance, minus
     infinity when the covariance is not positive definite. The predictive mean and variance are those of the
     conditional Gaussian, and predicting leaves the kernel as it was.''',
     ['inputs', 'configurations'], 'all hyper-parameter values, any times and error bars, all kernels',
     'Tests evaluate one or two fixed GP fits.',
     ['radvel/gp.py', 'radvel/likelihood.py'],
     [('compute_distances/compute_covmatrix', 'radvel/gp.py'), ('GPLikelihood.logprob/predict', 'radvel/likelihood.py'),
      ('CeleriteLikelihood', 'radvel/likelihood.py')])

prop('C09', 'Priors return their documented log-density and support',
     '''Every prior evaluated at a parameter vector returns the logarithm of its documented density (Gaussian, Jeffreys,
     modified Jeffreys, secondary-eclipse and informative-baseline densities with their normalisation) inside the
     support, and minus infinity outside (a finite large penalty when the caller asks for a finite value). The support
     is the documented one: eccentricities of the planets below their limits, K of every planet not negative, hard
     bounds exclusive, and eccentricity and K are read through the basis in use.''',
     ['inputs', 'configurations'], 'all parameter values and prior settings, all bases, 1..3 planets',
     'Tests evaluate a few points.',
     ['radvel/prior.py'],
     [('__call__ of every prior', 'radvel/prior.py')])

prop('C10', 'Prior transforms are the inverse cumulative distributions of the priors',
     '''For every prior with a transform, mapping the unit interval gives the quantile function of that prior: monotone and
     with cumulative probability equal to the argument. The joint transform applies to every free parameter, in the
     order of the parameter vector, the transform of the prior attached to it, works on a copy unless told to work in
     place, and refuses posteriors where a free parameter has no or more than one proper prior.''',
     ['inputs', 'configurations'], 'all u in (0,1), all prior settings, any set of free parameters and priors',
     'Tests check a few quantiles.',
     ['radvel/prior.py', 'radvel/posterior.py'],
     [('transform', 'radvel/prior.py'), ('prior_transform, check_proper_priors', 'radvel/posterior.py')])

prop('C11', 'The posterior is likelihood times priors at the given parameters',
     '''The log-posterior is the log-likelihood plus the sum of all log-priors, and minus infinity as soon as a prior excludes
     the parameters. Evaluating it at an array of free parameters gives the value at exactly those parameters,
     whatever was evaluated before, and for nested sampling the likelihood plus the priors that are not transformed
     counts every prior exactly once. Residuals and information criteria are those of its likelihood.''',
     ['inputs', 'histories'], 'all parameter values, any list of priors, any sequence of evaluations',
     'Tests evaluate a few posteriors.',
     ['radvel/posterior.py', 'radvel/likelihood.py'],
     [('Posterior.logprob, logprob_array, extra_likelihood, likelihood_ns_array', 'radvel/posterior.py')])

prop('C12', 'Information criteria and model comparison follow their definitions',
     '''BIC is k*ln(n)-2*lnL and AIC is 2k-2*lnL plus the small-sample correction 2k(k+1)/(n-k-1) (infinite when n is not
     above k+1), with k the number of free parameters and n the number of data. Model comparison evaluates every
     combination of the requested model components exactly once (for trends: with curvature and slope, with the slope
     only, and without), each a fit of the posterior with the named components removed or fixed, and reports for each
     its own criteria, log-likelihood, number of free parameters and rms, leaving the posterior it was given
     untouched.''',
     ['inputs', 'configurations'], 'any data, any number of free parameters, any requested component subset',
     'Tests run one comparison and check that it completes.',
     ['radvel/likelihood.py', 'radvel/fitting.py', 'radvel/report.py'],
     [('bic, aic', 'radvel/likelihood.py'), ('model_comp', 'radvel/fitting.py')])

prop('C13', 'MCMC convergence diagnostics and stopping decisions are correct',
     '''The Gelman-Rubin statistic and the number of independent draws of every free parameter are computed from between-chain
     and within-chain variances of the chains by the published formulas, and do not depend on the order of the chains.
     The chains are declared well mixed only if every parameter meets every threshold (autocorrelation factor, its
     relative change, and, when there are several ensembles, Tz and Gelman-Rubin), and the burn-in reset and the stop
     happen only after the configured conditions hold. Walkers start within one step size of the current values of
     their parameters, and the samples returned are those of the last check.''',
     ['inputs', 'histories'], 'all chains (numbers, lengths, values) and thresholds',
     'Tests run short MCMC fits with random data.',
     ['radvel/mcmc.py'],
     [('convergence_calculate', 'radvel/mcmc.py'), ('convergence_check', 'radvel/mcmc.py'), ('mcmc', 'radvel/mcmc.py')])

prop('C14', 'A fit moves only free parameters and returns what was optimised',
     '''The fit minimises the negative log-posterior over exactly the free parameters starting from their current values, and
     returns the posterior with its free parameters at the optimiser's last point and its fixed parameters unchanged,
     whatever the optimiser evaluated on the way. Parameters reported in the dictionary agree with the vector used for
     the evaluation.''',
     ['inputs', 'configurations'], 'any posterior, any free set, any optimiser outcome',
     'Tests run a few fits and check that they finish.',
     ['radvel/fitting.py', 'radvel/likelihood.py'],
     [('maxlike_fitting', 'radvel/fitting.py'), ('neglogprob_array', 'radvel/likelihood.py')])

prop('C15', 'Binning is weighted averaging within time bins and telescopes',
     '''Every measurement contributes to exactly one bin, each bin spans at most the bin size in time and never mixes
     telescopes, and the binned time, velocity and error are the inverse-variance weighted means and the propagated
     error of its members. The total weight is conserved, and inputs are not modified.''',
     ['inputs'], 'any number of observations in any order, any values, errors>0 and bin sizes, any telescopes',
     'Tests bin one data set.',
     ['radvel/utils.py'],
     [('timebin', 'radvel/utils.py'), ('bintels', 'radvel/utils.py')])

prop('C16', 'Masses, amplitudes, axes and densities obey the laws of Kepler',
     '''Semi-amplitude and minimum mass are inverse to each other for planets much lighter than the star (below a tenth of its
     mass; above, the minimum mass solves the exact mass function) and follow
     K=(2*pi*G/P)^(1/3)*Msini*M^(-2/3)/sqrt(1-e^2) in the requested units; the semi-major axis follows Kepler's third
     law; the density is mass over the volume of a sphere. Earth and Jupiter units agree through their mass ratio,
     scalars and arrays agree, and unknown units are rejected. Derived masses, semi-major axes, mass ratios and
     densities of posterior samples are these functions of each sample's own elements and stellar-mass draw.''',
     ['inputs'], 'all positive masses, periods, radii, K, 0<=e<1, both units, scalars and arrays',
     'Tests check the Jupiter, Saturn and Earth values.',
     ['radvel/utils.py'],
     [('semi_amplitude, Msini, semi_major_axis, density', 'radvel/utils.py'), ('derive', 'radvel/driver.py')])

prop('C17', 'Orbital phases and calendar conversions are exact',
     '''The orbital phase is the fractional number of periods since the reference epoch of the orbit (inferior conjunction
     when the parameters contain its time, otherwise periastron), always in [0,1), for any basis with a period, and
     the wrapped version adds the copy shifted by one period. Converting a calendar date to Julian date and back is
     the identity, and Julian dates differ by exactly the elapsed days. Printed durations use the unit their size
     calls for.''',
     ['inputs'], 'all times, periods, dates',
     'Tests convert one date.',
     ['radvel/utils.py'],
     [('t_to_phase, t_to_phase_vector', 'radvel/utils.py'), ('date2jd, jd2date, time_print', 'radvel/utils.py')])

prop('C18', 'Fit state survives being saved and reloaded',
     '''A posterior written to disk and read back gives the same log-posterior, parameters, priors and data; saving one
     section of the run status keeps all other sections and all keys of that section not being updated (names and
     single-line text, names without regard to case); nested-sampling results written to disk are returned unchanged
     by loading and are never overwritten unless asked. The plan for which sampler's results to use follows from which
     runs the status file records as completed.''',
     ['histories', 'configurations'], 'any posterior, any sequence of status updates, any result',
     'Tests exercise one command-line run.',
     ['radvel/posterior.py', 'radvel/driver.py', 'radvel/nested_sampling.py', 'radvel/model.py'],
     [('writeto/load', 'radvel/posterior.py'), ('save_status/load_status/_pick_sampler', 'radvel/driver.py'),
      ('fit, mcmc, nested_sampling, tables', 'radvel/driver.py'),
      ('load_results and refusal to overwrite', 'radvel/nested_sampling.py')])

prop('C19', 'Reported credible intervals and rounding represent the samples',
     '''The summary of a set of samples is its median and the distances to its 15.9 and 84.1 percentiles (as order
     statistics), for angles that lie within a quarter turn of the most frequent value independent of a common
     rotation, and computing it leaves the samples unchanged. Values are reported with a common number of decimals
     fixed by the significant digits of the errors (more for a median that would read zero), and rounding to n
     significant figures changes the value by at most half a unit of the last kept digit.''',
     ['inputs'], 'any samples and values',
     'Tests round one or two numbers.',
     ['radvel/utils.py', 'radvel/driver.py'],
     [('geterr, sigfig, round_sig', 'radvel/utils.py'), ('sampling_postprocessing', 'radvel/driver.py'),
      ('TexTable._row, _data', 'radvel/report.py')])

prop('C20', 'A saved MCMC run resumes from exactly the stored state',
     '''After every round of a saved MCMC run the file holds, and holds only, every ensemble's chain, log-probabilities and
     accepted steps, the convergence criteria, the autocorrelation history and the burned steps at the end of that
     round. A resumed run starts every ensemble at its last stored positions with the stored chain, log-probabilities
     and accepted steps before the new ones, and with the stored burn-in state and history; the old file is only
     written when it is the file to save to. A file with another number of ensembles, walkers or parameters is refused,
     as is saving or resuming without a file name.''',
     ['histories', 'crash_points', 'configurations'], 'all stored states, interruption after any round, any number of ensembles',
     'Tests resume one run and only check completion.',
     ['radvel/mcmc.py'], [('mcmc: saving and proceeding', 'radvel/mcmc.py')])

prop('C21', 'The optimiser finds the global maximum and the samplers the true posterior',
     '''For every posterior the fit returns the global maximum-posterior point, and MCMC and nested sampling converge to the
     posterior distribution and evidence.''',
     ['inputs', 'schedules'], 'all posteriors',
     'Tests cannot cover the space of posteriors.',
     ['radvel/fitting.py', 'radvel/mcmc.py', 'radvel/nested_sampling.py'],
     [('scipy, emcee, dynesty, ultranest, nautilus', 'external')])

prop('C22', 'The report shows the numbers of the run',
     '''The tables of a report list every velocity (or as many as asked for) with its own time, error and instrument, every
     prior once with its parameter and numbers, the convergence criteria of the run under their names, and the compared models in the order of AICc,
     each with its own statistics and its difference to the best. The parameter table has a block for the fitted basis,
     one for the printed basis and one with every instrument, trend and GP parameter exactly once, all from the samples
     converted sample by sample to that basis. The derived quantities appear once per planet,
     in the unit that is named, however often the table is asked for. Different parameters have different labels, which
     name the planet or instrument. The document contains each table and each figure that exists once.''',
     ['inputs', 'configurations'], 'any data, samples, fitted basis, instruments, priors and comparison results',
     'Tests only run the report and never read it.',
     ['radvel/report.py'], [('tab_rv, tab_crit, tab_comparison, tab_params, tab_prior_summary, texdoc', 'radvel/report.py'),
      ('RadvelReport.__init__', 'radvel/report.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
